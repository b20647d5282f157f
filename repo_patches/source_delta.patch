From 97ab2dbf3e93799135ee046607f954288b3be4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 01/32] fix: keep ragged neighbor lists in Pyramid and Random
 as lists

np.array() over index arrays of different lengths raises ValueError with
numpy >= 1.24, so both topologies crashed on almost every swarm.
---
 pyswarms/backend/topology/pyramid.py | 11 +++++------
 pyswarms/backend/topology/random.py  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index d3d5b2a..9df8b38 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -78,12 +78,11 @@ class Pyramid(Topology):
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-                    self.neighbor_idx = np.array(
-                        [
-                            index_pointer[indices[i] : indices[i + 1]]
-                            for i in range(swarm.n_particles)
-                        ]
-                    )
+                    # (the number of neighbors differs among particles)
+                    self.neighbor_idx = [
+                        index_pointer[indices[i] : indices[i + 1]]
+                        for i in range(swarm.n_particles)
+                    ]
 
                 idx_min = np.array(
                     [
diff --git a/pyswarms/backend/topology/random.py b/pyswarms/backend/topology/random.py
index 7835448..6c0710c 100644
--- a/pyswarms/backend/topology/random.py
+++ b/pyswarms/backend/topology/random.py
@@ -65,12 +65,11 @@ class Random(Topology):
             # Check if the topology is static or dynamic and assign neighbors
             if (self.static and self.neighbor_idx is None) or not self.static:
                 adj_matrix = self.__compute_neighbors(swarm, k)
-                self.neighbor_idx = np.array(
-                    [
-                        adj_matrix[i].nonzero()[0]
-                        for i in range(swarm.n_particles)
-                    ]
-                )
+                # The number of neighbors differs among particles
+                self.neighbor_idx = [
+                    adj_matrix[i].nonzero()[0]
+                    for i in range(swarm.n_particles)
+                ]
             idx_min = np.array(
                 [
                     swarm.pbest_cost[self.neighbor_idx[i]].argmin()
-- 
2.43.0


From 60b65b86b3f7e0db026811dea5fef5516fd4c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 02/32] fix: keep every particle in its own Ring neighborhood,
 with a stable shape

When positions coincide, cKDTree may leave a particle out of its own
k nearest neighbors; the reported best cost then forgot the best particle,
and the cost history could increase. With k=1 (or VonNeumann r=0) a static
neighborhood also gained one axis per iteration until numpy gave up.
---
 pyswarms/backend/topology/ring.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 0f1ca90..f1a5dd0 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -65,14 +65,21 @@ class Ring(Topology):
             if (self.static and self.neighbor_idx is None) or not self.static:
                 # Obtain the nearest-neighbors for each particle
                 tree = cKDTree(swarm.position)
-                _, self.neighbor_idx = tree.query(swarm.position, p=p, k=k)
+                _, neighbor_idx = tree.query(swarm.position, p=p, k=k)
+                self.neighbor_idx = neighbor_idx.reshape(swarm.n_particles, -1)
+                # With ties (e.g. coinciding positions) the query may leave a
+                # particle out of its own neighborhood, so put it back in.
+                itself = np.arange(swarm.n_particles)
+                missing = ~np.any(
+                    self.neighbor_idx == itself[:, np.newaxis], axis=1
+                )
+                self.neighbor_idx[missing, -1] = itself[missing]
 
             # Map the computed costs to the neighbour indices and take the
             # argmin. If k-neighbors is equal to 1, then the swarm acts
             # independently of each other.
             if k == 1:
                 # The minimum index is itself, no mapping needed.
-                self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
                 best_neighbor = np.arange(swarm.n_particles)
             else:
                 idx_min = swarm.pbest_cost[self.neighbor_idx].argmin(axis=1)
-- 
2.43.0


From 0c5890da276a48fc4f7383b6b470bcf48390d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 03/32] fix: let Star pick a best position even if no cost is
 finite yet

If every cost of the first iteration was infinite (or NaN), best_pos stayed
the empty default array and the velocity update crashed.
---
 pyswarms/backend/topology/star.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/star.py b/pyswarms/backend/topology/star.py
index 0a166b4..75dc790 100644
--- a/pyswarms/backend/topology/star.py
+++ b/pyswarms/backend/topology/star.py
@@ -63,7 +63,10 @@ class Star(Topology):
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-            if np.min(swarm.pbest_cost) < swarm.best_cost:
+            if (
+                np.size(swarm.best_pos) == 0
+                or np.min(swarm.pbest_cost) < swarm.best_cost
+            ):
                 # Get the particle position with the lowest pbest_cost
                 # and assign it to be the best_pos
                 best_pos = swarm.pbest_pos[np.argmin(swarm.pbest_cost)]
-- 
2.43.0


From c3c40bae29d1769b67de1f5247102d5a7d5e02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 04/32] fix: forget the previous call's global best when
 optimize() starts again

optimize() resets the personal bests but kept best_cost, so with the Star
topology a second call could return the cost of an earlier call next to a
position that does not have that cost.
---
 pyswarms/single/general_optimizer.py | 2 ++
 pyswarms/single/global_best.py       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index a46d3ed..56eef38 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,6 +240,8 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 3392bfb..cdff5b7 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,6 +202,8 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From e80dedb9fa8c7788b0a7f1cd0b83371325e3348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 05/32] fix: keep the shrink strategy inside the bounds despite
 rounding

The shrunk step lands on the bound only up to rounding, so about one result
in five was just outside of the search space.
---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 61680f5..6ff08f8 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -279,6 +279,8 @@ class BoundaryHandler(HandlerMixin):
                     velocity[greater_than_bound[0]].T,
                 ).T
             )
+            # Rounding may leave a shrunk particle just outside of its bound
+            new_pos = self.nearest(new_pos, bounds)
             self.memory = new_pos
         return new_pos
 
-- 
2.43.0


From cc69bb8c40acadcdcdd5a6138acfa3ef383d30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 06/32] fix: accept lists as bounds in every boundary strategy

Bounds are documented as ndarray or list, but shrink, reflective and
intermediate index them with arrays, which raises TypeError for lists.
---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 6ff08f8..704a428 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -130,6 +130,8 @@ class BoundaryHandler(HandlerMixin):
         numpy.ndarray
             the adjusted positions of the swarm
         """
+        # Bounds may also be given as lists
+        bounds = tuple(np.asarray(bound) for bound in bounds)
         try:
             new_position = self.strategies[self.strategy](
                 position, bounds, **kwargs
-- 
2.43.0


From 5297b59857379c7a93209b66203e221a935368a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 07/32] fix: repair positions on the first call of shrink and
 intermediate

Without a remembered previous position (a custom loop with a fresh handler)
both strategies returned out-of-bounds positions unchanged.
---
 pyswarms/backend/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 704a428..da2b48b 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -249,7 +249,8 @@ class BoundaryHandler(HandlerMixin):
 
         """
         if self.memory is None:
-            new_pos = position
+            # There is no previous position to start from yet
+            new_pos = self.nearest(position, bounds)
             self.memory = new_pos
         else:
             lb, ub = bounds
@@ -333,7 +334,8 @@ class BoundaryHandler(HandlerMixin):
 
         """
         if self.memory is None:
-            new_pos = position
+            # There is no previous position to start from yet
+            new_pos = self.nearest(position, bounds)
             self.memory = new_pos
         else:
             lb, ub = bounds
-- 
2.43.0


From 704bf65588784bcfff951e1b4b029d005765e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 08/32] fix: apply the velocity clamp in every velocity
 strategy

zero ignored the clamp altogether, adjust ignored it on its first call.
---
 pyswarms/backend/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index da2b48b..1425210 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -494,8 +494,8 @@ class VelocityHandler(HandlerMixin):
             else:
                 new_vel = kwargs["position"] - self.memory
                 self.memory = kwargs["position"]
-                if clamp is not None:
-                    new_vel = self.__apply_clamp(new_vel, clamp)
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' missing")
             raise
@@ -543,6 +543,8 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
             new_vel[lower_than_bound[0]] = np.zeros(velocity.shape[1])
             new_vel[greater_than_bound[0]] = np.zeros(velocity.shape[1])
         except KeyError:
-- 
2.43.0


From c1fbe227e062a3202572e5135b74d578f5c833d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 09/32] fix: invert a velocity once if two bounds are exceeded
 at once

A particle below a lower bound in one dimension and above an upper bound in
another was scaled by z^2 instead of -z, i.e. not inverted at all.
---
 pyswarms/backend/handlers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 1425210..430bc2c 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -524,10 +524,9 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
-            new_vel[lower_than_bound[0]] = (-z) * new_vel[lower_than_bound[0]]
-            new_vel[greater_than_bound[0]] = (-z) * new_vel[
-                greater_than_bound[0]
-            ]
+            # A particle may exceed a lower and an upper bound at once
+            out = np.union1d(lower_than_bound[0], greater_than_bound[0])
+            new_vel[out] = (-z) * new_vel[out]
             if clamp is not None:
                 new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
-- 
2.43.0


From 13e6dec97b07d930750bb1fcea144fea0dcea9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 10/32] fix: let the random options strategy work without
 end_opts

Optimizers never pass end_opts, so oh_strategy={'w': 'random'} always raised
KeyError although a default end value is in place.
---
 pyswarms/backend/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 430bc2c..a17f607 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -722,7 +722,7 @@ class OptionsHandler(HandlerMixin):
         """
         
         start = start_opts[opt]
-        if opt in kwargs["end_opts"]:
+        if opt in kwargs.get("end_opts", {}):
             end = kwargs["end_opts"][opt]
         else:
             end = start + 1
-- 
2.43.0


From 2ecb5f4f55194c3017d890f3127da737892a2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 11/32] fix: reflect particles from far away in constant time

One reflection per loop pass took as many passes as box widths of overshoot,
and never ended once a single width was below the rounding error.
---
 pyswarms/backend/handlers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index a17f607..5191bfe 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -197,10 +197,16 @@ class BoundaryHandler(HandlerMixin):
             \end{gather*}
         """
         lb, ub = bounds
+        new_pos = position
+        # Repeated reflections have a period of twice the extent of the search
+        # space, so skip the whole periods of far away particles at once
+        period = np.broadcast_to(2 * (ub - lb), new_pos.shape)
+        offset = new_pos - lb
+        far = np.abs(offset) > period
+        new_pos[far] = (lb + np.mod(offset, period))[far]
         lower_than_bound, greater_than_bound = self._out_of_bounds(
-            position, bounds
+            new_pos, bounds
         )
-        new_pos = position
         while lower_than_bound[0].size != 0 or greater_than_bound[0].size != 0:
             if lower_than_bound[0].size > 0:
                 new_pos[lower_than_bound] = (
-- 
2.43.0


From 07212b752a7e603eb8f1fed32d24d37c2b67f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 12/32] fix: do not share default options between swarms

Swarm and create_swarm() used one mutable default dict for all instances, so
setting an option of one swarm changed every other one.
---
 pyswarms/backend/generators.py | 3 ++-
 pyswarms/backend/swarms.py     | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 4a8ab11..6623cc6 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -189,7 +189,7 @@ def create_swarm(
     dimensions,
     discrete=False,
     binary=False,
-    options={},
+    options=None,
     bounds=None,
     center=1.0,
     init_pos=None,
@@ -242,4 +242,5 @@ def create_swarm(
         )
 
     velocity = generate_velocity(n_particles, dimensions, clamp=clamp)
+    options = {} if options is None else options
     return Swarm(position, velocity, options=options)
diff --git a/pyswarms/backend/swarms.py b/pyswarms/backend/swarms.py
index f3817cb..ce0616f 100644
--- a/pyswarms/backend/swarms.py
+++ b/pyswarms/backend/swarms.py
@@ -10,7 +10,7 @@ as input to most backend cases.
 
 # Import modules
 import numpy as np
-from attr import attrib, attrs
+from attr import Factory, attrib, attrs
 from attr.validators import instance_of
 
 
@@ -87,7 +87,9 @@ class Swarm(object):
     # With defaults
     n_particles = attrib(type=int, validator=instance_of(int))
     dimensions = attrib(type=int, validator=instance_of(int))
-    options = attrib(type=dict, default={}, validator=instance_of(dict))
+    options = attrib(
+        type=dict, default=Factory(dict), validator=instance_of(dict)
+    )
     pbest_pos = attrib(type=np.ndarray, validator=instance_of(np.ndarray))
     best_pos = attrib(
         type=np.ndarray,
-- 
2.43.0


From 28b7aa2b9855f548126f44d5c007c31227b456c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 13/32] fix: draw an own random number for every bit in
 BinaryPSO

A single random vector was shared by all particles, so their bits were not
sampled independently of each other as the update rule demands.
---
 pyswarms/discrete/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index ed20b8f..73fef95 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -262,7 +262,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             a Swarm class
         """
         return (
-            np.random.random_sample(size=swarm.dimensions)
+            np.random.random_sample(size=swarm.velocity.shape)
             < self._sigmoid(swarm.velocity)
         ) * 1
 
-- 
2.43.0


From 003352bd73ebc54c41b8d73237a5f24738a42690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 14/32] fix: move swarms whose initial positions are integers

Adding a float velocity in place to an integer position raises a casting
error, e.g. for init_pos=np.zeros((5, 2), dtype=int).
---
 pyswarms/backend/operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index 71041e0..da27d5d 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -194,8 +194,7 @@ def compute_position(swarm, bounds, bh):
         New position-matrix
     """
     try:
-        temp_position = swarm.position.copy()
-        temp_position += swarm.velocity
+        temp_position = swarm.position + swarm.velocity
 
         if bounds is not None:
             temp_position = bh(temp_position, bounds)
-- 
2.43.0


From a2990db19c5582e7cb5f0aa2aa95c3e86f168dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 15/32] fix: reject init_pos of the wrong shape in
 generate_swarm

The documented ValueError was never raised; the mismatch surfaced much later
as a broadcasting error inside of the optimization loop.
---
 pyswarms/backend/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 6623cc6..9a89f17 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -58,6 +58,10 @@ def generate_swarm(
         When the argument passed to bounds is not an iterable.
     """
     try:
+        if (init_pos is not None) and (
+            np.shape(init_pos) != (n_particles, dimensions)
+        ):
+            raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and (bounds is None):
             pos = init_pos
         elif (init_pos is not None) and (bounds is not None):
-- 
2.43.0


From e8a8e9bdb066d03bdd467dbe4365d96e6687fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 16/32] fix: draw plot_surface on axes that belong to the
 figure

Since matplotlib 3.7, Axes3D(fig) no longer adds itself to the figure, so the
plot stayed blank; 3D axes handed in through canvas were ignored as well.
---
 pyswarms/utils/plotters/plotters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 4bfd959..6e66b13 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -346,7 +346,8 @@ def plot_surface(
             fig, ax = canvas
 
         # Initialize 3D-axis
-        ax = Axes3D(fig)
+        if not isinstance(ax, Axes3D):
+            ax = fig.add_axes(Axes3D(fig))
 
         n_iters = len(pos_history)
 
-- 
2.43.0


From 4b149c4f2001f439bbbeeab9382b2013df4cd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 17/32] fix: never evaluate empty chunks in parallel

With more processes than particles the objective function was also called
with empty arrays, which many objectives (np.apply_along_axis, x.max(), ...)
reject, so a run that works serially failed in parallel.
---
 pyswarms/backend/operators.py         | 4 +++-
 pyswarms/utils/plotters/formatters.py | 4 +++-
 pyswarms/utils/plotters/plotters.py   | 6 +++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index da27d5d..ee65a5e 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -237,8 +237,10 @@ def compute_objective_function(swarm, objective_func, pool=None, **kwargs):
     if pool is None:
         return objective_func(swarm.position, **kwargs)
     else:
+        # Do not hand out empty chunks if there are more processes than particles
+        n_chunks = min(pool._processes, swarm.n_particles)
         results = pool.map(
             partial(objective_func, **kwargs),
-            np.array_split(swarm.position, pool._processes),
+            np.array_split(swarm.position, n_chunks),
         )
         return np.concatenate(results)
diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index 38a35e7..fc9ddb9 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -198,9 +198,11 @@ class Mesher(object):
             for i in range(len(pos_history)):
 
                 # Parallelize particles
+                # (without empty chunks if there are more processes)
+                n_chunks = min(pool._processes, len(pos_history[i]))
                 r_map_split = pool.map(
                     self.func,
-                    np.array_split(np.array(pos_history[i]), pool._processes),
+                    np.array_split(np.array(pos_history[i]), n_chunks),
                 )
                 iter_r.append(np.array(np.concatenate(r_map_split)))
             fitness = np.array(iter_r)
diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 6e66b13..bdad15f 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -420,9 +420,9 @@ def _mesh(mesher, n_processes=None):
     if pool is None:
         z = mesher.func(xypairs)
     else:
-        results = pool.map(
-            mesher.func, np.array_split(xypairs, pool._processes)
-        )
+        # Do not hand out empty chunks if there are more processes than points
+        n_chunks = min(pool._processes, len(xypairs))
+        results = pool.map(mesher.func, np.array_split(xypairs, n_chunks))
         z = np.concatenate(results)
 
     # Close Pool of Processes
-- 
2.43.0


From b868893d4f769ed682d83dd46a1e588468b3ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 18/32] fix: do not share default labels, limits and levels
 between formatters

Designer and Mesher handed the same mutable default objects to all instances,
so customizing one of them changed every other one.
---
 pyswarms/utils/plotters/formatters.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index fc9ddb9..a79b195 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -8,7 +8,7 @@ This module implements helpful classes to format your plots or create meshes.
 
 # Import modules
 import numpy as np
-from attr import attrib, attrs
+from attr import Factory, attrib, attrs
 from attr.validators import instance_of
 from matplotlib import cm, colors
 import multiprocessing as mp
@@ -67,11 +67,11 @@ class Designer(object):
     legend = attrib(validator=instance_of(str), default="Cost")
     label = attrib(
         validator=instance_of((str, list, tuple)),
-        default=["x-axis", "y-axis", "z-axis"],
+        default=Factory(lambda: ["x-axis", "y-axis", "z-axis"]),
     )
     limits = attrib(
         validator=instance_of((list, tuple)),
-        default=[(-1, 1), (-1, 1), (-1, 1)],
+        default=Factory(lambda: [(-1, 1), (-1, 1), (-1, 1)]),
     )
     colormap = attrib(
         validator=instance_of(colors.Colormap), default=cm.viridis
@@ -160,9 +160,12 @@ class Mesher(object):
     # For mesh creation
     delta = attrib(type=float, default=0.001)
     limits = attrib(
-        validator=instance_of((list, tuple)), default=[(-1, 1), (-1, 1)]
+        validator=instance_of((list, tuple)),
+        default=Factory(lambda: [(-1, 1), (-1, 1)]),
+    )
+    levels = attrib(
+        type=list, default=Factory(lambda: np.arange(-2.0, 2.0, 0.070))
     )
-    levels = attrib(type=list, default=np.arange(-2.0, 2.0, 0.070))
     # Surface transparency
     alpha = attrib(type=float, validator=instance_of(float), default=0.3)
 
-- 
2.43.0


From 504a209a9da9193308bc0a4cbd229ece6c229458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 19/32] fix: connect dimensions + 1 particles directly in
 Pyramid

They form a single simplex; Qhull refuses to triangulate them with joggled
input, so the Pyramid topology crashed for this number of particles.
---
 pyswarms/backend/topology/pyramid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index 9df8b38..d748ee7 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -61,8 +61,9 @@ class Pyramid(Topology):
             Best cost
         """
         try:
-            # If there are less than (swarm.dimensions + 1) particles they are all connected
-            if swarm.n_particles < swarm.dimensions + 1:
+            # If there are less than (swarm.dimensions + 2) particles they are all
+            # connected, (swarm.dimensions + 1) of them being a single simplex
+            if swarm.n_particles < swarm.dimensions + 2:
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-- 
2.43.0


From c5c9744707ad57bde34c95a787631579cb33e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 20/32] fix: export both base classes from pyswarms.base

A missing comma joined their names, so 'from pyswarms.base import *' failed.
---
 pyswarms/base/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/base/__init__.py b/pyswarms/base/__init__.py
index 6c0d4b7..3b3623b 100644
--- a/pyswarms/base/__init__.py
+++ b/pyswarms/base/__init__.py
@@ -6,4 +6,4 @@ swarm classes to implement variants of particle swarm optimization.
 from .base_single import SwarmOptimizer
 from .base_discrete import DiscreteSwarmOptimizer
 
-__all__ = ["SwarmOptimizer" "DiscreteSwarmOptimizer"]
+__all__ = ["SwarmOptimizer", "DiscreteSwarmOptimizer"]
-- 
2.43.0


From eeb3b9a1ee0890c54c08ea699afe2482af118ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 21/32] fix: draw a random position for every out-of-bounds
 particle

The random boundary strategy moved all particles that exceeded an upper (or a
lower) bound to one and the same random point, collapsing the swarm.
---
 pyswarms/backend/handlers.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 5191bfe..56448db 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -303,22 +303,12 @@ class BoundaryHandler(HandlerMixin):
         lower_than_bound, greater_than_bound = self._out_of_bounds(
             position, bounds
         )
-        # Set indices that are greater than bounds
+        # Draw an own position for every particle that is out of bounds
+        out = np.union1d(lower_than_bound[0], greater_than_bound[0])
         new_pos = position
-        new_pos[greater_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
-        )
-        new_pos[lower_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
-        )
+        new_pos[out] = (ub - lb) * np.random.random_sample(
+            (out.size, position.shape[1])
+        ) + lb
         return new_pos
 
     def intermediate(self, position, bounds, **kwargs):
-- 
2.43.0


From f129813e8bdc49e5f562d32bb554c9f57be6d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 22/32] fix: wait for the worker processes instead of leaving
 the pool to the garbage collector

---
 pyswarms/discrete/binary.py           | 14 +++++++++++---
 pyswarms/single/general_optimizer.py  | 10 +++++++++-
 pyswarms/single/global_best.py        | 10 +++++++++-
 pyswarms/single/local_best.py         | 14 +++++++++++---
 pyswarms/utils/plotters/formatters.py |  1 +
 pyswarms/utils/plotters/plotters.py   |  1 +
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index 73fef95..dbaee5e 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -192,9 +192,16 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-            self.swarm.current_cost = compute_objective_function(
-                self.swarm, objective_func, pool, **kwargs
-            )
+            try:
+                self.swarm.current_cost = compute_objective_function(
+                    self.swarm, objective_func, pool, **kwargs
+                )
+            except BaseException:
+                # Do not leave the workers behind
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(
                 self.swarm
             )
@@ -246,6 +253,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return (final_best_cost, final_best_pos)
 
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 56eef38..4e3c36f 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -246,7 +246,14 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
             # fmt: off
-            self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            try:
+                self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            except BaseException:
+                # Do not leave the workers behind
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(self.swarm)
             best_cost_yet_found = self.swarm.best_cost
             # fmt: on
@@ -303,4 +310,5 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index cdff5b7..b708e9f 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -208,7 +208,14 @@ class GlobalBestPSO(SwarmOptimizer):
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
             # fmt: off
-            self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            try:
+                self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            except BaseException:
+                # Do not leave the workers behind
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(self.swarm)
             # Set best_cost_yet_found for ftol
             best_cost_yet_found = self.swarm.best_cost
@@ -263,4 +270,5 @@ class GlobalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 146442d..1cfcd83 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -229,9 +229,16 @@ class LocalBestPSO(SwarmOptimizer):
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-            self.swarm.current_cost = compute_objective_function(
-                self.swarm, objective_func, pool=pool, **kwargs
-            )
+            try:
+                self.swarm.current_cost = compute_objective_function(
+                    self.swarm, objective_func, pool=pool, **kwargs
+                )
+            except BaseException:
+                # Do not leave the workers behind
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                raise
             self.swarm.pbest_pos, self.swarm.pbest_cost = compute_pbest(
                 self.swarm
             )
@@ -289,4 +296,5 @@ class LocalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index a79b195..0e4fb04 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -213,5 +213,6 @@ class Mesher(object):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return np.dstack((pos_history, fitness))
diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index bdad15f..300fc45 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -428,6 +428,7 @@ def _mesh(mesher, n_processes=None):
     # Close Pool of Processes
     if n_processes is not None:
         pool.close()
+        pool.join()
 
     zz = z.reshape(xx.shape)
     return (xx, yy, zz)
-- 
2.43.0


From 61eacebd6d26a6488143ecdf5dae70793a5841f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 23/32] fix: pass a StopIteration of the objective on from the
 workers

---
 pyswarms/backend/operators.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index ee65a5e..cfc3e28 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -239,8 +239,9 @@ def compute_objective_function(swarm, objective_func, pool=None, **kwargs):
     else:
         # Do not hand out empty chunks if there are more processes than particles
         n_chunks = min(pool._processes, swarm.n_particles)
-        results = pool.map(
-            partial(objective_func, **kwargs),
-            np.array_split(swarm.position, n_chunks),
-        )
-        return np.concatenate(results)
+        # pool.map would take a StopIteration for the end of the results
+        results = [
+            pool.apply_async(partial(objective_func, **kwargs), (chunk,))
+            for chunk in np.array_split(swarm.position, n_chunks)
+        ]
+        return np.concatenate([result.get() for result in results])
-- 
2.43.0


From 7f64c33cc8b9bda1762bc1e1daa3fc4900964f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 24/32] fix: reject initial positions of the wrong shape for
 discrete swarms

---
 pyswarms/backend/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 9a89f17..d890235 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -128,6 +128,10 @@ def generate_discrete_swarm(
         When the argument passed to n_particles or dimensions is incorrect.
     """
     try:
+        if (init_pos is not None) and (
+            np.shape(init_pos) != (n_particles, dimensions)
+        ):
+            raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and binary:
             if not len(np.unique(init_pos)) <= 2:
                 raise ValueError("User-defined init_pos is not binary!")
-- 
2.43.0


From bb970797022d27f201080eb280ad8462bec48c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 25/32] fix: documented minimum of the eggholder function

---
 pyswarms/utils/functions/single_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/utils/functions/single_obj.py b/pyswarms/utils/functions/single_obj.py
index aa34a2c..7541904 100644
--- a/pyswarms/utils/functions/single_obj.py
+++ b/pyswarms/utils/functions/single_obj.py
@@ -311,7 +311,7 @@ def eggholder(x):
     """Eggholder objective function.
 
     Only takes two dimensions and has a global minimum of
-    `-959.6407` at :code:`f([512, 404.3219])`.
+    `-959.6407` at :code:`f([512, 404.2319])`.
     Its coordinates are bounded within :code:`[-512, 512]`.
 
     Best visualized in the full domain and a range of :code:`[-1000, 1000]`.
-- 
2.43.0


From 372d8837f68accb936a3a714773aa3787e3ecc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 26/32] fix: let busy workers finish after an error of the
 objective

---
 pyswarms/discrete/binary.py          | 8 +++++++-
 pyswarms/single/general_optimizer.py | 8 +++++++-
 pyswarms/single/global_best.py       | 8 +++++++-
 pyswarms/single/local_best.py        | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index dbaee5e..ade77ed 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -196,8 +196,14 @@ class BinaryPSO(DiscreteSwarmOptimizer):
                 self.swarm.current_cost = compute_objective_function(
                     self.swarm, objective_func, pool, **kwargs
                 )
+            except Exception:
+                # Do not leave the workers behind. Those still busy finish
+                # first, terminating them while they send is not safe.
+                if pool is not None:
+                    pool.close()
+                    pool.join()
+                raise
             except BaseException:
-                # Do not leave the workers behind
                 if pool is not None:
                     pool.terminate()
                     pool.join()
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 4e3c36f..c21541f 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -248,8 +248,14 @@ class GeneralOptimizerPSO(SwarmOptimizer):
             # fmt: off
             try:
                 self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            except Exception:
+                # Do not leave the workers behind. Those still busy finish
+                # first, terminating them while they send is not safe.
+                if pool is not None:
+                    pool.close()
+                    pool.join()
+                raise
             except BaseException:
-                # Do not leave the workers behind
                 if pool is not None:
                     pool.terminate()
                     pool.join()
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index b708e9f..d3e2c10 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -210,8 +210,14 @@ class GlobalBestPSO(SwarmOptimizer):
             # fmt: off
             try:
                 self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+            except Exception:
+                # Do not leave the workers behind. Those still busy finish
+                # first, terminating them while they send is not safe.
+                if pool is not None:
+                    pool.close()
+                    pool.join()
+                raise
             except BaseException:
-                # Do not leave the workers behind
                 if pool is not None:
                     pool.terminate()
                     pool.join()
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 1cfcd83..9d3fbb9 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -233,8 +233,14 @@ class LocalBestPSO(SwarmOptimizer):
                 self.swarm.current_cost = compute_objective_function(
                     self.swarm, objective_func, pool=pool, **kwargs
                 )
+            except Exception:
+                # Do not leave the workers behind. Those still busy finish
+                # first, terminating them while they send is not safe.
+                if pool is not None:
+                    pool.close()
+                    pool.join()
+                raise
             except BaseException:
-                # Do not leave the workers behind
                 if pool is not None:
                     pool.terminate()
                     pool.join()
-- 
2.43.0


From 5d6819739550e6df871eccad4072b5cf6a7e4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 27/32] fix: pass on objective arguments named swarm or pool

An optimizer handed the user's keyword arguments for the objective to
compute_objective_function(), where swarm and pool are parameters of its
own: optimize(f, 10, swarm=1) raised TypeError.
---
 pyswarms/discrete/binary.py          | 3 ++-
 pyswarms/single/general_optimizer.py | 5 ++++-
 pyswarms/single/global_best.py       | 5 ++++-
 pyswarms/single/local_best.py        | 3 ++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index ade77ed..07b1f2c 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -59,6 +59,7 @@ import numpy as np
 import multiprocessing as mp
 
 from collections import deque
+from functools import partial
 
 from ..backend.operators import compute_pbest, compute_objective_function
 from ..backend.topology import Ring
@@ -194,7 +195,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             # Compute cost for current position and personal best
             try:
                 self.swarm.current_cost = compute_objective_function(
-                    self.swarm, objective_func, pool, **kwargs
+                    self.swarm, partial(objective_func, **kwargs), pool
                 )
             except Exception:
                 # Do not leave the workers behind. Those still busy finish
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index c21541f..eaabe9c 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -64,6 +64,7 @@ import numpy as np
 import multiprocessing as mp
 
 from collections import deque
+from functools import partial
 
 from ..backend.operators import compute_pbest, compute_objective_function
 from ..backend.topology import Topology
@@ -247,7 +248,9 @@ class GeneralOptimizerPSO(SwarmOptimizer):
             # Compute cost for current position and personal best
             # fmt: off
             try:
-                self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+                self.swarm.current_cost = compute_objective_function(
+                    self.swarm, partial(objective_func, **kwargs), pool=pool
+                )
             except Exception:
                 # Do not leave the workers behind. Those still busy finish
                 # first, terminating them while they send is not safe.
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index d3e2c10..0724bac 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -63,6 +63,7 @@ import numpy as np
 import multiprocessing as mp
 
 from collections import deque
+from functools import partial
 
 from ..backend.operators import compute_pbest, compute_objective_function
 from ..backend.topology import Star
@@ -209,7 +210,9 @@ class GlobalBestPSO(SwarmOptimizer):
             # Compute cost for current position and personal best
             # fmt: off
             try:
-                self.swarm.current_cost = compute_objective_function(self.swarm, objective_func, pool=pool, **kwargs)
+                self.swarm.current_cost = compute_objective_function(
+                    self.swarm, partial(objective_func, **kwargs), pool=pool
+                )
             except Exception:
                 # Do not leave the workers behind. Those still busy finish
                 # first, terminating them while they send is not safe.
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 9d3fbb9..be6e374 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -72,6 +72,7 @@ import numpy as np
 import multiprocessing as mp
 
 from collections import deque
+from functools import partial
 
 from ..backend.operators import compute_pbest, compute_objective_function
 from ..backend.topology import Ring
@@ -231,7 +232,7 @@ class LocalBestPSO(SwarmOptimizer):
             # Compute cost for current position and personal best
             try:
                 self.swarm.current_cost = compute_objective_function(
-                    self.swarm, objective_func, pool=pool, **kwargs
+                    self.swarm, partial(objective_func, **kwargs), pool=pool
                 )
             except Exception:
                 # Do not leave the workers behind. Those still busy finish
-- 
2.43.0


From cc27528a07e77afceaccd2d83577bb47ad22d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 28/32] fix: no numpy warnings from the tolerance test and the
 sigmoid

A tolerance of zero, infinite costs or large velocities of a BinaryPSO made
every run print RuntimeWarnings, also with verbose=False.
---
 pyswarms/discrete/binary.py          | 15 +++++++++------
 pyswarms/single/general_optimizer.py | 12 +++++++-----
 pyswarms/single/global_best.py       | 12 +++++++-----
 pyswarms/single/local_best.py        | 12 +++++++-----
 4 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index 07b1f2c..bc8de89 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -230,11 +230,13 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             )
             self._populate_history(hist)
             # Verify stop criteria based on the relative acceptable cost ftol
-            relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
-            delta = (
-                np.abs(self.swarm.best_cost - best_cost_yet_found)
-                < relative_measure
-            )
+            # (infinite costs and a tolerance of zero are no reason for warnings)
+            with np.errstate(invalid="ignore"):
+                relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
+                delta = (
+                    np.abs(self.swarm.best_cost - best_cost_yet_found)
+                    < relative_measure
+                )
             if i < self.ftol_iter:
                 ftol_history.append(delta)
             else:
@@ -294,4 +296,5 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         numpy.ndarray
             Output sigmoid computation
         """
-        return 1 / (1 + np.exp(-x))
+        with np.errstate(over="ignore"):  # saturates
+            return 1 / (1 + np.exp(-x))
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index eaabe9c..0899681 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -282,11 +282,13 @@ class GeneralOptimizerPSO(SwarmOptimizer):
             )
             self._populate_history(hist)
             # Verify stop criteria based on the relative acceptable cost ftol
-            relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
-            delta = (
-                np.abs(self.swarm.best_cost - best_cost_yet_found)
-                < relative_measure
-            )
+            # (infinite costs and a tolerance of zero are no reason for warnings)
+            with np.errstate(invalid="ignore"):
+                relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
+                delta = (
+                    np.abs(self.swarm.best_cost - best_cost_yet_found)
+                    < relative_measure
+                )
             if i < self.ftol_iter:
                 ftol_history.append(delta)
             else:
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 0724bac..7016979 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -242,11 +242,13 @@ class GlobalBestPSO(SwarmOptimizer):
             )
             self._populate_history(hist)
             # Verify stop criteria based on the relative acceptable cost ftol
-            relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
-            delta = (
-                np.abs(self.swarm.best_cost - best_cost_yet_found)
-                < relative_measure
-            )
+            # (infinite costs and a tolerance of zero are no reason for warnings)
+            with np.errstate(invalid="ignore"):
+                relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
+                delta = (
+                    np.abs(self.swarm.best_cost - best_cost_yet_found)
+                    < relative_measure
+                )
             if i < self.ftol_iter:
                 ftol_history.append(delta)
             else:
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index be6e374..1d96580 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -266,11 +266,13 @@ class LocalBestPSO(SwarmOptimizer):
             )
             self._populate_history(hist)
             # Verify stop criteria based on the relative acceptable cost ftol
-            relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
-            delta = (
-                np.abs(self.swarm.best_cost - best_cost_yet_found)
-                < relative_measure
-            )
+            # (infinite costs and a tolerance of zero are no reason for warnings)
+            with np.errstate(invalid="ignore"):
+                relative_measure = self.ftol * (1 + np.abs(best_cost_yet_found))
+                delta = (
+                    np.abs(self.swarm.best_cost - best_cost_yet_found)
+                    < relative_measure
+                )
             if i < self.ftol_iter:
                 ftol_history.append(delta)
             else:
-- 
2.43.0


From 29aa8904274cb710c5890434be89c077a9b36cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 29/32] fix: let handlers keep copies of the previous positions

---
 pyswarms/backend/handlers.py         | 12 ++++++------
 pyswarms/single/general_optimizer.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 56448db..c115bc0 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -257,7 +257,7 @@ class BoundaryHandler(HandlerMixin):
         if self.memory is None:
             # There is no previous position to start from yet
             new_pos = self.nearest(position, bounds)
-            self.memory = new_pos
+            self.memory = new_pos.copy()
         else:
             lb, ub = bounds
             lower_than_bound, greater_than_bound = self._out_of_bounds(
@@ -290,7 +290,7 @@ class BoundaryHandler(HandlerMixin):
             )
             # Rounding may leave a shrunk particle just outside of its bound
             new_pos = self.nearest(new_pos, bounds)
-            self.memory = new_pos
+            self.memory = new_pos.copy()
         return new_pos
 
     def random(self, position, bounds, **kwargs):
@@ -332,7 +332,7 @@ class BoundaryHandler(HandlerMixin):
         if self.memory is None:
             # There is no previous position to start from yet
             new_pos = self.nearest(position, bounds)
-            self.memory = new_pos
+            self.memory = new_pos.copy()
         else:
             lb, ub = bounds
             lower_than_bound, greater_than_bound = self._out_of_bounds(
@@ -345,7 +345,7 @@ class BoundaryHandler(HandlerMixin):
             new_pos[greater_than_bound] = 0.5 * (
                 self.memory[greater_than_bound] + ub[greater_than_bound[1]]
             )
-            self.memory = new_pos
+            self.memory = new_pos.copy()
         return new_pos
 
     def periodic(self, position, bounds, **kwargs):
@@ -486,10 +486,10 @@ class VelocityHandler(HandlerMixin):
         try:
             if self.memory is None:
                 new_vel = velocity
-                self.memory = kwargs["position"]
+                self.memory = kwargs["position"].copy()
             else:
                 new_vel = kwargs["position"] - self.memory
-                self.memory = kwargs["position"]
+                self.memory = kwargs["position"].copy()
             if clamp is not None:
                 new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 0899681..49773b1 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -234,8 +234,8 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         )
 
         # Populate memory of the handlers
-        self.bh.memory = self.swarm.position
-        self.vh.memory = self.swarm.position
+        self.bh.memory = self.swarm.position.copy()
+        self.vh.memory = self.swarm.position.copy()
 
         # Setup Pool of processes for parallel evaluation
         pool = None if n_processes is None else mp.Pool(n_processes)
-- 
2.43.0


From 4e97afa28725ae6e362c3d6c4dc094dcc0f5f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 30/32] fix: record copies of the positions and velocities in
 the histories

---
 pyswarms/base/base_discrete.py | 4 ++--
 pyswarms/base/base_single.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswarms/base/base_discrete.py b/pyswarms/base/base_discrete.py
index 7436ffc..3596c38 100644
--- a/pyswarms/base/base_discrete.py
+++ b/pyswarms/base/base_discrete.py
@@ -142,8 +142,8 @@ class DiscreteSwarmOptimizer(abc.ABC):
         self.cost_history.append(hist.best_cost)
         self.mean_pbest_history.append(hist.mean_pbest_cost)
         self.mean_neighbor_history.append(hist.mean_neighbor_cost)
-        self.pos_history.append(hist.position)
-        self.velocity_history.append(hist.velocity)
+        self.pos_history.append(np.copy(hist.position))
+        self.velocity_history.append(np.copy(hist.velocity))
 
     @abc.abstractmethod
     def optimize(self, objective_func, iters, n_processes=None, **kwargs):
diff --git a/pyswarms/base/base_single.py b/pyswarms/base/base_single.py
index ad6d27d..c80e1ac 100644
--- a/pyswarms/base/base_single.py
+++ b/pyswarms/base/base_single.py
@@ -140,8 +140,8 @@ class SwarmOptimizer(abc.ABC):
         self.cost_history.append(hist.best_cost)
         self.mean_pbest_history.append(hist.mean_pbest_cost)
         self.mean_neighbor_history.append(hist.mean_neighbor_cost)
-        self.pos_history.append(hist.position)
-        self.velocity_history.append(hist.velocity)
+        self.pos_history.append(np.copy(hist.position))
+        self.velocity_history.append(np.copy(hist.velocity))
 
     @abc.abstractmethod
     def optimize(self, objective_func, iters, n_processes=None, **kwargs):
-- 
2.43.0


From cff0ed561facae00ac9165dc6222bcece0401081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 31/32] fix: do not move the user's initial positions in place

---
 pyswarms/backend/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index d890235..731412c 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -63,13 +63,13 @@ def generate_swarm(
         ):
             raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and (bounds is None):
-            pos = init_pos
+            pos = init_pos.copy()
         elif (init_pos is not None) and (bounds is not None):
             if not (
                 np.all(bounds[0] <= init_pos) and np.all(init_pos <= bounds[1])
             ):
                 raise ValueError("User-defined init_pos is out of bounds.")
-            pos = init_pos
+            pos = init_pos.copy()
         elif (init_pos is None) and (bounds is None):
             pos = center * np.random.uniform(
                 low=0.0, high=1.0, size=(n_particles, dimensions)
@@ -136,9 +136,9 @@ def generate_discrete_swarm(
             if not len(np.unique(init_pos)) <= 2:
                 raise ValueError("User-defined init_pos is not binary!")
             # init_pos maybe ones
-            pos = init_pos
+            pos = init_pos.copy()
         elif (init_pos is not None) and not binary:
-            pos = init_pos
+            pos = init_pos.copy()
         elif (init_pos is None) and binary:
             pos = np.random.randint(2, size=(n_particles, dimensions))
         else:
-- 
2.43.0


From b3b66ebbcd4c102eced9a31eee26707b8d484277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 32/32] fix: end the workers when the function of a parallel
 plot fails

---
 pyswarms/utils/plotters/formatters.py | 23 ++++++++++++-----------
 pyswarms/utils/plotters/plotters.py   |  3 ++-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index 0e4fb04..1b84258 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -197,17 +197,18 @@ class Mesher(object):
             fitness = np.array(list(map(self.func, pos_history)))
         else:
             iter_r = []
-            # Iterate over iterations
-            for i in range(len(pos_history)):
-
-                # Parallelize particles
-                # (without empty chunks if there are more processes)
-                n_chunks = min(pool._processes, len(pos_history[i]))
-                r_map_split = pool.map(
-                    self.func,
-                    np.array_split(np.array(pos_history[i]), n_chunks),
-                )
-                iter_r.append(np.array(np.concatenate(r_map_split)))
+            with pool:  # ends the workers also if the function fails
+                # Iterate over iterations
+                for i in range(len(pos_history)):
+
+                    # Parallelize particles
+                    # (without empty chunks if there are more processes)
+                    n_chunks = min(pool._processes, len(pos_history[i]))
+                    r_map_split = pool.map(
+                        self.func,
+                        np.array_split(np.array(pos_history[i]), n_chunks),
+                    )
+                    iter_r.append(np.array(np.concatenate(r_map_split)))
             fitness = np.array(iter_r)
 
         # Close Pool of Processes
diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 300fc45..05c450f 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -422,7 +422,8 @@ def _mesh(mesher, n_processes=None):
     else:
         # Do not hand out empty chunks if there are more processes than points
         n_chunks = min(pool._processes, len(xypairs))
-        results = pool.map(mesher.func, np.array_split(xypairs, n_chunks))
+        with pool:  # ends the workers also if the function fails
+            results = pool.map(mesher.func, np.array_split(xypairs, n_chunks))
         z = np.concatenate(results)
 
     # Close Pool of Processes
-- 
2.43.0

