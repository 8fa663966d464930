From 5d4edb10b76955c9f61ed31a1fdd1aee0a2bef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 01/89] fix: accept real-valued numpy inputs in
 ForwardMesh.matrix_fn

`inputs += 0j` cannot cast a real array in place (UFuncTypeError) and wrote to the caller's array.
---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6f873cc..b4d826e 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -202,7 +202,7 @@ class ForwardMesh:
         def matrix(params: Tuple[xp.ndarray, xp.ndarray, xp.ndarray] = self.params, inputs=xp.eye(self.n, dtype=np.complex64),
                    bs_errors=xp.array(self.all_errors, dtype=np.complex64), loss_errors=xp.array(self.all_losses, dtype=np.complex64)):
 
-            inputs += 0j  # cast to complex if not already
+            inputs = inputs + 0j  # cast to complex if not already
             thetas, phis, gammas = params
             outputs = xp.array(inputs[:, None].copy() if inputs.ndim == 1 else inputs.copy())
             mzis = _parallel_mzi(
-- 
2.43.0


From 3f5ec0f7fa3af334eecc394bde8227a647d26fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 02/89] fix: order splitter errors and losses by node id like
 thetas and phis

Trees list their nodes in traversal order, so the errors of one node were
applied to the phases of another and self-configuration did not correct them.
---
 simphox/circuit/forward.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index b4d826e..d0f9e81 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -47,12 +47,12 @@ class ForwardMesh:
         self.bottom = [int(node.bottom) for node in self.nodes]
         self.bs_errors = np.array([node.bs_error for node in self.nodes])
         self.losses = np.array([node.loss for node in self.nodes])
-        self.mzi_terms = _mzi_terms(self.all_errors)
         self.node_idxs = [node.node_id for node in self.nodes]
         if np.sum(self.node_idxs) == 0:
             self.node_idxs = np.arange(len(self.nodes)).tolist()
             for node, idx in zip(self.nodes, self.node_idxs):
                 node.node_id = idx
+        self.mzi_terms = _mzi_terms(self.all_errors)
         self.n = self.nodes[0].n if len(self.nodes) > 0 else 1
         self.alpha = np.array([node.alpha for node in self.nodes])
         self.beta = np.array([node.beta for node in self.nodes])
@@ -118,7 +118,8 @@ class ForwardMesh:
             A randomly initialized :code:`s`.
 
         """
-        return betaincinv(self.beta, self.alpha, np.random.rand(self.num_nodes))
+        order = self._node_id_order
+        return betaincinv(self.beta[order], self.alpha[order], np.random.rand(self.num_nodes))
 
     def rand_theta(self):
         """Randomly initialized coupling phase :math:`\\theta`.
@@ -600,12 +601,17 @@ class ForwardMesh:
         mesh.params = self.params
         return mesh
 
+    @property
+    def _node_id_order(self) -> np.ndarray:
+        # thetas and phis are indexed by node id, so per-node attributes need to be ordered by node id too
+        return np.argsort(self.node_idxs, kind='stable')
+
     @property
     def all_errors(self):
         if (self.bs_errors.ndim == 1 or self.bs_errors.shape[-1] == 1) and self.bs_errors.size == self.num_nodes:
-            return np.hstack((self.bs_errors, self.bs_errors))
+            return np.hstack((self.bs_errors, self.bs_errors))[self._node_id_order]
         elif self.bs_errors.shape[-1] == 2 and self.bs_errors.size == self.num_nodes * 2:
-            return self.bs_errors
+            return self.bs_errors[self._node_id_order]
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.bs_errors.shape[-1]}, [1 or 2]).")
@@ -613,9 +619,9 @@ class ForwardMesh:
     @property
     def all_losses(self):
         if (self.losses.ndim == 1 or self.losses.shape[-1] == 1) and self.losses.size == self.num_nodes:
-            return np.hstack((self.losses, self.losses))
+            return np.hstack((self.losses, self.losses))[self._node_id_order]
         elif self.losses.shape[-1] == 2 and self.losses.size == self.num_nodes * 2:
-            return self.losses
+            return self.losses[self._node_id_order]
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.losses.shape[-1]}, [1 or 2]).")
-- 
2.43.0


From 96c99dd64d7eaa00f4d74e75e56b03e8a754dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 03/89] fix: make backward MZI matrix elements the transpose of
 the forward ones

With different left/right splitter errors the off-diagonal terms were those of
the forward direction, and the differential style moved phi to the wrong arm.
---
 simphox/circuit/forward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index d0f9e81..7c19351 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -685,6 +685,8 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
 
     # stands for cos-cos, cos-sin, sin-cos, sin-sin terms.
     cc, cs, sc, ss = _mzi_terms(bs_errors, use_jax)
+    if back:  # light sees the right splitter first
+        cs, sc = sc, cs
     # insertion (assume a fixed loss that is global for each node) expressed in terms of dB
     il, ir = np.log(10) * loss_errors.T / 20
 
@@ -704,10 +706,10 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
         t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
     elif phase_style == PhaseStyle.DIFFERENTIAL:
-        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
+        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * (-phi - theta) / 2 + ir)
         t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
-        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
+        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta) / 2 + ir)
     else:
         raise ValueError(f"Phase style {phase_style} is not valid.")
     return xp.array([t11, t12, t21, t22])
-- 
2.43.0


From 75a9bd2f455823a2215ce60118985073aeefdd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 04/89] fix: nullify MZIs with different left and right
 splitter errors

The bottom-to-top element of the node is i(sc + cs exp(i theta)).
---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 7c19351..497cc06 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -495,7 +495,7 @@ class ForwardMesh:
             phi = np.angle(top[:, -1]) - np.angle(bottom[:, -1]) + np.pi
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
-        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (cs + np.exp(-1j * theta) * sc))
+        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
         return theta, phi
 
     @property
-- 
2.43.0


From e3fccfedc2f2f1246b112f4f0db928f528493542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 05/89] fix: use the same coupler error convention in explicit
 propagation as in the mesh matrix

---
 simphox/circuit/forward.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 497cc06..6169221 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -731,10 +731,10 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
     right = int(right)
     insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
     errors = bs_errors.T[right]
-    t11 = insertion * xp.sin(np.pi / 4 + errors)
-    t12 = insertion * 1j * xp.cos(np.pi / 4 + errors)
-    t21 = 1j * xp.cos(np.pi / 4 + errors)
-    t22 = xp.sin(np.pi / 4 + errors)
+    t11 = insertion * xp.cos(np.pi / 4 + errors)
+    t12 = insertion * 1j * xp.sin(np.pi / 4 + errors)
+    t21 = 1j * xp.sin(np.pi / 4 + errors)
+    t22 = xp.cos(np.pi / 4 + errors)
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From 50e378d2a0c6434f3fef7fad5f100239b0f9a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 06/89] fix: apply losses at the theta and phi phase shifters
 in explicit propagation

The losses were swapped and always on the top rail, so the propagated fields
did not end at the output of the mesh matrix.
---
 simphox/circuit/forward.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6169221..3a279a8 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -303,8 +303,11 @@ class ForwardMesh:
                 propagated.append(outputs.copy()[None])
 
             if explicit:
-                left = _parallel_dc(bs_errors, loss_errors, right=False, use_jax=use_jax)
-                right = _parallel_dc(bs_errors, loss_errors, right=True, use_jax=use_jax)
+                left = _parallel_dc(bs_errors, right=False, use_jax=use_jax)
+                right = _parallel_dc(bs_errors, right=True, use_jax=use_jax)
+                # the losses (in dB) are those of the theta and phi phase shifters respectively
+                theta_loss, phi_loss = np.log(10) * loss_errors.T / 20
+                thetas, phis = thetas - 1j * theta_loss, phis - 1j * phi_loss
             else:
                 mzis = _parallel_mzi(thetas, phis, bs_errors, loss_errors, use_jax=use_jax, back=back, phase_style=self.phase_style)
 
@@ -715,7 +718,7 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
     return xp.array([t11, t12, t21, t22])
 
 
-def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = False, use_jax: bool = False):
+def _parallel_dc(bs_errors: np.ndarray, right: bool = False, use_jax: bool = False):
     """This is a helper function for parallel directional couplers
     across all directional couplers in the mesh.
 
@@ -729,10 +732,9 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
     """
     xp = jnp if use_jax else np
     right = int(right)
-    insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
     errors = bs_errors.T[right]
-    t11 = insertion * xp.cos(np.pi / 4 + errors)
-    t12 = insertion * 1j * xp.sin(np.pi / 4 + errors)
+    t11 = xp.cos(np.pi / 4 + errors)
+    t12 = 1j * xp.sin(np.pi / 4 + errors)
     t21 = 1j * xp.sin(np.pi / 4 + errors)
     t22 = xp.cos(np.pi / 4 + errors)
     return xp.array([t11, t12, t21, t22])
-- 
2.43.0


From 52d13677bd0d99bd621d911112f07b03a6e1df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/89] fix: drop unsupported keyword arguments in jax
 non-explicit propagation

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3a279a8..ef2d6e4 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -319,7 +319,7 @@ class ForwardMesh:
                                                    phase_style=self.phase_style, back=back, use_jax=True)
                 else:
                     def parallel_propagate(carry, idx):
-                        carry = _parallel_transform(carry, mzis, idx, phase_style=self.phase_style, back=back, use_jax=True)
+                        carry = _parallel_transform(carry, mzis, idx, use_jax=True)
                         return carry, carry[None]
                 outputs, _propagated = lax.scan(parallel_propagate, outputs, all_idx)
                 propagated.extend(_propagated)
-- 
2.43.0


From f74d227e31713f9ad85ca1d46c09bb4d25f5d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 08/89] fix: keep the phase style when aggregating meshes

cascade() programs each subunit with its phase style but the aggregated mesh
fell back to TOP, so BOTTOM triangular/tree meshes implemented another matrix.
---
 simphox/circuit/forward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index ef2d6e4..52a0246 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -142,12 +142,14 @@ class ForwardMesh:
 
         """
         all_nodes = []
+        phase_style = PhaseStyle.TOP
         for obj in nodes_or_node_lists:
             if isinstance(obj, CouplingNode):
                 all_nodes.append(obj)
             else:
                 all_nodes.extend(obj.nodes)
-        return cls(all_nodes)
+                phase_style = obj.phase_style
+        return cls(all_nodes, phase_style=phase_style)
 
     @property
     def columns(self) -> List["ForwardMesh"]:
-- 
2.43.0


From 020814c0f7cdb8acd8f3f5b0996b3c339dc4658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/89] fix: sign of the nullifying phi for differential phase
 style

The differential phase shifter applies -phi/2 to the top arm and phi/2 to the
bottom arm, the opposite of a top phase shifter.
---
 simphox/circuit/forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 52a0246..3ac1b29 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -501,6 +501,8 @@ class ForwardMesh:
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
         phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
+        if self.phase_style == PhaseStyle.DIFFERENTIAL:
+            phi = -phi  # a differential phi advances the bottom arm relative to the top arm
         return theta, phi
 
     @property
-- 
2.43.0


From 24f8fae3b60d74c2654c3414eecae0910c7db003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 10/89] fix: localize phase shifter powers by node id and phase
 style

The powers were listed in column order and always in the top arm, so in situ
gradients of trees and triangular meshes went to the wrong phase shifters and
those of BOTTOM meshes were measured in the wrong arm.
---
 simphox/circuit/forward.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3ac1b29..aebe37d 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -531,18 +531,16 @@ class ForwardMesh:
 
     def phase_shift_localize(self, prop_powers: np.ndarray, use_jax: bool = True):
         xp = jnp if use_jax else np
+        columns = self.columns
+        # the phase shifters are in the bottom arms for the BOTTOM phase style
+        arms = [nc.bottom if self.phase_style == PhaseStyle.BOTTOM else nc.top for nc in columns]
+        # thetas and phis are indexed by node id
+        order = np.argsort(np.hstack([nc.node_idxs for nc in columns]), kind='stable')
+        theta_powers = xp.concatenate([prop_powers[i * 4 + 2, np.array(arm)] for i, arm in enumerate(arms)])[order]
+        phi_powers = xp.concatenate([prop_powers[i * 4, np.array(arm)] for i, arm in enumerate(arms)])[order]
         if prop_powers.ndim == 3:
-            return (
-                xp.vstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                xp.vstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                prop_powers[-1].sum(axis=-1)
-            )
-        elif prop_powers.ndim == 2:
-            return (
-                xp.hstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]),
-                xp.hstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]),
-                prop_powers[-1]
-            )
+            return theta_powers.sum(axis=-1), phi_powers.sum(axis=-1), prop_powers[-1].sum(axis=-1)
+        return theta_powers, phi_powers, prop_powers[-1]
 
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
-- 
2.43.0


From 33aee549db4ba8d346fa1cf6d8c9c0a48f02b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 11/89] fix: scale and shape of the input cotangent of the in
 situ matrix

The adjoint inputs are computed for the normalized cotangent and were returned
without undoing that normalization, had the wrong shape for a single column and
a zero cotangent gave NaN.
---
 simphox/circuit/forward.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index aebe37d..fb05579 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -384,13 +384,15 @@ class ForwardMesh:
 
             inorm = jnp.max(jnp.linalg.norm(inputs, axis=-1))
             gnorm = jnp.max(jnp.linalg.norm(g, axis=-1))
+            inorm = jnp.where(inorm == 0, 1, inorm)
+            gnorm = jnp.where(gnorm == 0, 1, gnorm)
 
-            inputs /= inorm
-            g /= gnorm
+            inputs = inputs / inorm
+            g = g / gnorm
 
             if all_analog:
                 # instead of using digital subtraction of backpropagating signals, use only forward prop'd signal
-                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors).squeeze()
+                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors).reshape(inputs.shape)
                 adjoint_inputs_abs = jnp.abs(jnp.abs(adjoint_inputs) * (1 + io_amp_error_std * np.random.randn(*adjoint_inputs.shape)))
                 adjoint_inputs_phase = jnp.angle(adjoint_inputs) + io_phase_error_std * np.random.randn(*adjoint_inputs.shape) * np.pi
                 adjoint_inputs = adjoint_inputs_abs * jnp.exp(1j * adjoint_inputs_phase)
@@ -404,7 +406,7 @@ class ForwardMesh:
             else:
                 forward = forward_prop_fn(params, inputs, bs_errors, loss_errors)
                 adjoint = backward_prop_fn(params, g, bs_errors, loss_errors)[::-1]
-                adjoint_inputs = adjoint[0]
+                adjoint_inputs = adjoint[0].reshape(inputs.shape)
                 sum = forward_prop_fn(params, inputs - 1j * jnp.conj(adjoint_inputs), bs_errors, loss_errors)
                 sum_abs, forward_abs, adjoint_abs = jnp.abs(sum), jnp.abs(forward), jnp.abs(adjoint)
                 sum_meas = sum_abs ** 2 + tap_pd_shot_noise * sum_abs * np.random.randn(*forward.shape)
@@ -414,7 +416,7 @@ class ForwardMesh:
 
             # returns the grad powers at the various gradient positions and adjoint inputs (needed to propagate errors backward to prev layer)
             # assumes bs errors and loss errors are not modifiable (zero backpropagated gradients for those!)
-            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
+            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs * gnorm, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
 
         matrix.defvjp(matrix_fwd, matrix_bwd)
         return matrix
-- 
2.43.0


From baced6cc72e02da622e48c6591f5fa84a5c4d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 12/89] fix: wrap phi by 4 pi for differential phase style

A differential phase shift of +-phi/2 flips sign when phi is wrapped by 2 pi, so
programmed vector units did not implement their vector.
---
 simphox/circuit/forward.py | 8 +++++++-
 simphox/circuit/vector.py  | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index fb05579..5e6dc83 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -477,7 +477,7 @@ class ForwardMesh:
             vector = self.propagate(w.copy(), column_cutoff=nc.column_by_node[0], explicit=False)[-1]
             theta, phi = nc.parallel_nullify(vector, self.mzi_terms)
             self.thetas[nc.node_idxs] = theta
-            self.phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+            self.phis[nc.node_idxs] = np.mod(phi, self.phi_period)
 
     def parallel_nullify(self, vector: np.ndarray, mzi_terms: np.ndarray):
         """Assuming the mesh is a column, this method runs a parallel nullify algorithm to set up
@@ -507,6 +507,12 @@ class ForwardMesh:
             phi = -phi  # a differential phi advances the bottom arm relative to the top arm
         return theta, phi
 
+    @property
+    def phi_period(self):
+        """Period of the phases :math:`\\phi`, a differential phase shift of :math:`\\pm \\phi / 2` has a period of
+        :math:`4 \\pi`."""
+        return 4 * np.pi if self.phase_style == PhaseStyle.DIFFERENTIAL else 2 * np.pi
+
     @property
     def params(self):
         return (self.thetas.copy(), self.phis.copy(), self.gammas.copy())
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index e552349..07f06e7 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -149,7 +149,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
 
         # The resulting thetas and phis, indexed according to the coupling network specifications
         thetas[nc.node_idxs] = theta
-        phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+        phis[nc.node_idxs] = np.mod(phi, network.phi_period)
 
     final_basis_vec = np.zeros(v.shape[0])
     final_basis_vec[-1] = 1
-- 
2.43.0


From 44527a88666835aca33387d0cf26a79188d0d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 13/89] fix: size of the output phases of a vector unit
 embedded in more rails

vector_unit(v, n_rails) with n_rails > v.size set one output phase per vector
element rather than per rail, so the mesh could not be evaluated.
---
 simphox/circuit/matrix.py | 2 +-
 simphox/circuit/vector.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 8008dfa..3b7c871 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -47,7 +47,7 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         # Update the phases.
         thetas = np.hstack((thetas, network.thetas))
         phis = np.hstack((phis, network.phis))
-        gammas = np.hstack((network.gammas[-1], gammas))
+        gammas = np.hstack((network.gammas[i], gammas))
 
         # We need to index the thetas and phis correctly based on the number of programmed nodes in previous subunits
         # For unbalanced architectures (linear chains), we can actually pack them more efficiently into a triangular
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index 07f06e7..e2182a3 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -151,9 +151,8 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
         thetas[nc.node_idxs] = theta
         phis[nc.node_idxs] = np.mod(phi, network.phi_period)
 
-    final_basis_vec = np.zeros(v.shape[0])
-    final_basis_vec[-1] = 1
-    gammas = -np.angle(final_basis_vec * w[-1, -1])
+    gammas = np.zeros(network.n)
+    gammas[v.shape[0] - 1] = -np.angle(w[-1, -1])
 
     network.params = thetas, phis, gammas
     # print(network.params)
-- 
2.43.0


From b611c106e7dcb0f7b09fe3b00491b31f2fab8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 14/89] fix: normalized error of lossy or exactly matching
 matrices

The overlap was normalized by the norm of uhat only, so the error of a uniformly
attenuated matrix was NaN, as was that of an exact match due to rounding.
---
 simphox/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 59edb75..06d02e3 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -298,7 +298,8 @@ def normalized_error(u: np.ndarray, use_jax: bool = False):
     xp = jnp if use_jax else np
     u = jnp.array(u) if use_jax else u
     return lambda uhat: xp.sqrt(
-        1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2 / xp.abs(xp.trace(uhat.conj().T @ uhat)) ** 2)
+        xp.abs(1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2 / xp.abs(
+            xp.trace(uhat.conj().T @ uhat) * xp.trace(u.conj().T @ u))))
 
 
 def beta_pdf(x, a, b):
-- 
2.43.0


From 352580b422afcbd54fc76452258ae2f1736e18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 15/89] fix: cosine-sine decomposition of unitaries with
 vanishing blocks

Block-diagonal and permutation matrices have vanishing sines or cosines: np.sign
gave zero rows, rank-deficient columns were orthogonalized first and arcsin of a
rounded value above 1 gave NaN.
---
 simphox/circuit/matrix.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 3b7c871..da46d1e 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -147,16 +147,15 @@ def cs(mat: np.ndarray):
     q01 = mat[:m, m:]
     q11 = mat[m:, m:]
     l0, d00, r0 = svd(q00)
-    r1hp, d01 = qr(q01.conj().T @ l0)
-    theta = np.arcsin(d00)
-    d01 = np.append(np.diag(d01), 1) if n % 2 else np.diag(d01)
-    r1 = (r1hp * np.sign(d01)).conj().T
-    l1p, d10 = qr(q10 @ r0.conj().T)
-    d10 = np.append(np.diag(d10), 1) if n % 2 else np.diag(d10)
-    l1 = l1p * np.sign(d10)
-    phasor = (l1.conj().T @ q11 @ r1.conj().T)[-1, -1] if n % 2 else None
-    if n % 2:
-        r1[-1] *= phasor
+    # the cosines increase with index, so reverse the columns: vanishing cosines need to come last in the qr
+    r1hp, d01 = qr((q01.conj().T @ l0)[:, ::-1])
+    d01 = np.diag(d01)[::-1]
+    r1hp[:, :m] = r1hp[:, :m][:, ::-1] * np.where(d01.real < 0, -1, 1)
+    r1 = r1hp.conj().T
+    theta = np.arctan2(d00, np.abs(d01))
+    l1 = -q11 @ r1hp
+    l1[:, :m] = l1[:, :m] * np.sin(theta) + (q10 @ r0.conj().T) * np.cos(theta)
+    l1[:, m:] *= -1
     return l0, l1, r0, r1, theta
 
 
-- 
2.43.0


From ab4f81a2f3fd6cda327ffaee655abef31c31889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 16/89] fix: replace the removed numpy aliases np.int and
 np.float

Grids with PML, masks of several boxes and gradients of TM simulations raised
AttributeError.
---
 simphox/grid.py       | 2 +-
 simphox/primitives.py | 2 +-
 simphox/transform.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 2c26331..5d97f47 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -340,7 +340,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(np.int)
+        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
diff --git a/simphox/primitives.py b/simphox/primitives.py
index a6f84d6..b648410 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -105,7 +105,7 @@ class TMOperator:
             return te(t), None
 
         def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float))
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), float))
             return v,
 
         te.defvjp(te_fwd, te_bwd)
diff --git a/simphox/transform.py b/simphox/transform.py
index 7578d44..3895baf 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -70,5 +70,5 @@ def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
         The mask function
 
     """
-    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(np.float)
+    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(float)
     return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
-- 
2.43.0


From 5f4a4174dd7e328db184d097b48222c273d30dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 17/89] fix: do not reuse the factorization of another or
 singular matrix

The cache key was the hash of the printed matrix, which omits most entries of a
large matrix, so solves returned solutions of a previously solved system. The key
was also kept when the factorization failed.
---
 simphox/mkl.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2f2439d..2102653 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -141,21 +141,27 @@ class Pardiso:
         self.pardiso()
 
     def factor(self, mat: sp.csr_matrix):
-        self.phase = PARDISO_FACTORIZE
-        mat_hash = hash(str(mat))
-        self._set_mat(mat)
-        self._mat_hash = mat_hash
-        self.pardiso()
+        self._run(mat, PARDISO_FACTORIZE)
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        mat_hash = hash(str(mat))
-        if mat_hash != self._mat_hash:
-            self._set_mat(mat)
-            self._mat_hash = mat_hash
-            self.phase = PARDISO_FULLSOLVE
-        else:
-            self.phase = PARDISO_SOLVE
-        return self.pardiso(rhs)
+        same_mat = self._hash(mat) == self._mat_hash
+        return self._run(mat, PARDISO_SOLVE if same_mat else PARDISO_FULLSOLVE, rhs)
+
+    @staticmethod
+    def _hash(mat: sp.csr_matrix) -> int:
+        # hash all of the entries, the string representation of a matrix omits most of them
+        return hash((mat.shape, mat.indptr.tobytes(), mat.indices.tobytes(), mat.data.tobytes()))
+
+    def _run(self, mat: sp.csr_matrix, phase: int, rhs: Optional[np.ndarray] = None) -> np.ndarray:
+        mat_hash = self._hash(mat)
+        self._set_mat(mat)
+        self._mat_hash = mat_hash
+        self.phase = phase
+        try:
+            return self.pardiso(rhs)
+        except RuntimeError:
+            self._mat_hash = 0  # there is no usable factorization to reuse
+            raise
 
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
         if self._mat_hash == 0:
-- 
2.43.0


From ccd46f3282951814237bc183be88df74b907d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 18/89] fix: shape of Pardiso solutions for several right-hand
 sides

---
 simphox/mkl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2102653..a4dd083 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -169,6 +169,7 @@ class Pardiso:
         if rhs is not None and rhs.shape[0] != self.n:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
 
+        shape = None if rhs is None else rhs.shape
         nrhs = 0 if rhs is None else (np.prod(rhs.shape[1:]) if rhs.ndim > 1 else 1)
         rhs = np.zeros(1) if rhs is None else rhs.astype(self.dtype).flatten(order='f')
         x = np.zeros(1) if rhs is None else np.zeros(nrhs * self.n, dtype=self.dtype)
@@ -204,7 +205,7 @@ class Pardiso:
             raise RuntimeError(f"Pardiso returned an error with code {err_c.value}. "
                                f"Check error codes in manual: https://pardiso-project.org/manual/manual.pdf")
 
-        return x.reshape(rhs.shape, order='f') if nrhs > 1 else x
+        return x.reshape(shape, order='f') if nrhs > 1 else x
 
 
 class Feast:
-- 
2.43.0


From 27f9c9f585f84310415c626f8ddf31ea747422ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 19/89] fix: use the phis of the mesh by default in
 ForwardMesh.parallel_mzi

The thetas were used for both phase shifters.
---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 5e6dc83..7d76a75 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -553,7 +553,7 @@ class ForwardMesh:
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
         thetas = self.params[0] if thetas is None else thetas
-        phis = self.params[0] if phis is None else phis
+        phis = self.params[1] if phis is None else phis
         return _parallel_mzi(thetas, phis, self.all_errors, self.all_losses, phase_style, use_jax, back)
 
     @property
-- 
2.43.0


From 4cb84e1b610df241f2df68a9f1ddfb2cf8d949cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 20/89] fix: per-node and right splitter errors in
 add_error_mean

error_right was ignored, and an array with one error per node was rejected.
---
 simphox/circuit/forward.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 7d76a75..07b8e92 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -579,8 +579,11 @@ class ForwardMesh:
 
         """
         new_nodes = copy.deepcopy(self.nodes)
-        error = error * np.ones_like(self.bs_errors) if not isinstance(error, np.ndarray) else error
-        loss_db = loss_db * np.ones_like(self.losses) if not isinstance(loss_db, np.ndarray) else loss_db
+        error, loss_db = np.asarray(error, dtype=float), np.asarray(loss_db, dtype=float)
+        error = (error[:, np.newaxis] if error.ndim == 1 else error) * np.ones(self.bs_errors.shape)
+        loss_db = (loss_db[:, np.newaxis] if loss_db.ndim == 1 else loss_db) * np.ones(self.losses.shape)
+        if error_right is not None:
+            error[:, 1] = error_right
         for node, e, loss in zip(new_nodes, error, loss_db):
             node.bs_error = tuple(e)
             node.loss = tuple(loss)
-- 
2.43.0


From 0d1f77ea914ec231ed081ba0dc2c55b2d22fa776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 21/89] fix: multimode interferometer node matrix

The bar element of its coupling matrix was a sine, and the (left, right)
error and loss pairs of the node were passed where scalars are expected.
---
 simphox/circuit/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 7e0c266..34f6145 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -28,7 +28,7 @@ def coupling_matrix_phase(theta: float, split_error: float = 0, loss_error: floa
     insertion = loss2insertion(loss_error)
     return np.array([
         [insertion * np.cos(theta / 2 + split_error / 2), insertion * 1j * np.sin(theta / 2 + split_error / 2)],
-        [1j * np.sin(theta / 2 + split_error / 2), np.sin(theta / 2 + split_error / 2)]
+        [1j * np.sin(theta / 2 + split_error / 2), np.cos(theta / 2 + split_error / 2)]
     ])
 
 
@@ -174,7 +174,7 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = coupling_matrix_phase(theta, self.bs_error, self.loss) @ phase_matrix(phi)
+        mat = coupling_matrix_phase(theta, self.bs_error[0], self.loss[0]) @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def nullify(self, vector: np.ndarray, idx: int, lower_theta: bool = False, lower_phi: bool = False):
-- 
2.43.0


From a9a15885e064a9e26e90cb6b3dcf4cd6ac8ef8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 22/89] fix: apply the losses of an MZI node at its theta and
 phi phase shifters

The node matrix put the second loss on an output of the node, unlike the
documented model that the mesh matrices follow.
---
 simphox/circuit/coupling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 34f6145..029ab2e 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -129,7 +129,8 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = self.dc(right=True) @ phase_matrix(theta) @ self.dc(right=False) @ phase_matrix(phi)
+        theta_loss, phi_loss = [np.diag([loss2insertion(loss), 1]) for loss in self.loss]
+        mat = self.dc(right=True) @ theta_loss @ phase_matrix(theta) @ self.dc(right=False) @ phi_loss @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def phase_matrix(self, top: float = 0, bottom: float = 0):
@@ -156,9 +157,8 @@ class CouplingNode:
 
         """
         error = self.bs_error[right]
-        insertion = loss2insertion(self.loss[right])
         return np.array([
-            [np.cos(np.pi / 4 + error) * insertion, 1j * np.sin(np.pi / 4 + error) * insertion],
+            [np.cos(np.pi / 4 + error), 1j * np.sin(np.pi / 4 + error)],
             [1j * np.sin(np.pi / 4 + error), np.cos(np.pi / 4 + error)]
         ])
 
-- 
2.43.0


From 4dacb25fe703939c4fd9c50ade252296ceeeb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 23/89] fix: do not cache the averaged permittivity of a grid
 whose permittivity can change

After fill, set_eps, add or an assignment to eps, simulations went on using
the permittivity of the first access.
---
 simphox/fdtd.py | 13 ++++++-------
 simphox/grid.py |  2 --
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 73927de..61a60ed 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Tuple, List, Callable
 
 import jax.numpy as jnp
@@ -116,6 +115,7 @@ class FDTD(SimGrid):
 
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
+        eps_t = self.eps_t
         # update pml in pml regions if specified
         phi_e = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
@@ -123,21 +123,21 @@ class FDTD(SimGrid):
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / self.eps_t * self.dt
+        e += self._curl_h(h) / eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-                e = e.at[pml_region].add(phi_e[pml_idx] / self.eps_t[pml_region] * self.dt)
+                e = e.at[pml_region].add(phi_e[pml_idx] / eps_t[pml_region] * self.dt)
             else:
-                e[pml_region] += phi_e[pml_idx] / self.eps_t[pml_region] * self.dt
+                e[pml_region] += phi_e[pml_idx] / eps_t[pml_region] * self.dt
 
         # add source
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].set(-source.squeeze() / eps_t[source_region] * self.dt)
                 else:
-                    e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
+                    e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
 
         return e, h, psi_e, psi_h
 
@@ -348,7 +348,6 @@ class FDTD(SimGrid):
         return curl_pml_fn(dh, use_jax=self.use_jax)
 
     @property
-    @lru_cache()
     def eps_t(self):
         """The epsilon tensor (assumed to be diagonal, i.e. no off-diagonal components for now).
 
diff --git a/simphox/grid.py b/simphox/grid.py
index 5d97f47..f6235e0 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -1,5 +1,4 @@
 import dataclasses
-from functools import lru_cache
 
 import jax.numpy as jnp
 import numpy as np
@@ -462,7 +461,6 @@ class YeeGrid(Grid):
         return new_x, new_y, z
 
     @property
-    @lru_cache()
     def eps_t(self):
         """This attribute specifies the grid-averaged epsilon in the grid.
 
-- 
2.43.0


From 5fd5076c0bfc19104b00a252c61ccb6622136b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 24/89] fix: solve the port modes again when the permittivity
 of the cross section changes

The modes were cached by position only, so sources and measurements kept
using the modes of a permittivity that had been replaced.
---
 simphox/sim.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 72c3066..65575fd 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -1,5 +1,3 @@
-from functools import lru_cache
-
 import jax
 import numpy as np
 import jax.numpy as jnp
@@ -102,11 +100,11 @@ class SimGrid(YeeGrid):
         """
         super(SimGrid, self).__init__(size, spacing, eps, bloch_phase, pml, pml_sep, pml_params, name)
         self.use_jax = use_jax
+        self._modes_cache = {}
 
-    @lru_cache()
     def modes(self, center: Size3, size: Size3, wavelength: float = 1.55, num_modes: int = 1) -> SimCrossSection:
         """Eigenmode profile of a 2d or 3d :code:`SimGrid` object. This function is cached so that
-        it only computes the modes if the input parameters are provided.
+        it only computes the modes again if the input parameters or the permittivity of the cross section change.
 
         Args:
             center: center tuple of the form :code:`(x, y, z)` (in sim units, NOT pixels)
@@ -117,13 +115,16 @@ class SimGrid(YeeGrid):
         Returns:
             A Tuple of a Modes object and view function for measuring the fields.
         """
-        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
-        mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
-        modes = ModeLibrary(
-            ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
-            max_num_modes=num_modes
-        )
-        return SimCrossSection(modes, center, size, wavelength)
+        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze().copy()
+        key = (tuple(center), tuple(size), wavelength, num_modes, mode_eps.tobytes())
+        if key not in self._modes_cache:
+            mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
+            modes = ModeLibrary(
+                ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+                max_num_modes=num_modes
+            )
+            self._modes_cache[key] = SimCrossSection(modes, center, size, wavelength)
+        return self._modes_cache[key]
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
                    profile_size_factor: float = 3, wavelength: float = 1.55) -> Dict[PortLabel, SimCrossSection]:
-- 
2.43.0


From 398fe0c8cb7c8b7e2df15be215f8baef77faf463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 25/89] fix: port modes in grids whose spacing differs between
 axes

The spacing of the first axis was used for every cross section.
---
 simphox/sim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 65575fd..f965c32 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -115,12 +115,13 @@ class SimGrid(YeeGrid):
         Returns:
             A Tuple of a Modes object and view function for measuring the fields.
         """
-        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze().copy()
+        section = self.eps.reshape(self.shape3)[self.slice(center, size, squeezed=False)]
+        mode_eps, mode_spacing = section.squeeze().copy(), self.spacing3[np.array(section.shape) > 1]
         key = (tuple(center), tuple(size), wavelength, num_modes, mode_eps.tobytes())
         if key not in self._modes_cache:
-            mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
+            mode_size = tuple(np.array(mode_eps.shape) * mode_spacing)
             modes = ModeLibrary(
-                ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+                ModeSolver(size=mode_size, spacing=mode_spacing, eps=mode_eps, wavelength=wavelength),
                 max_num_modes=num_modes
             )
             self._modes_cache[key] = SimCrossSection(modes, center, size, wavelength)
-- 
2.43.0


From fa0881c26def67bd7b79ce08e425d13bf9e5f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 26/89] fix: copy the permittivity given to a grid

fill, set_eps and add changed the array of the caller (and every other grid
made from it), and values were truncated in an integer array.
---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index f6235e0..0b98b9a 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -72,7 +72,8 @@ class Grid:
         self.field_shape = (3, *self.shape3)
 
         self.n = np.prod(self.shape)
-        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps
+        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) \
+            else np.array(eps, dtype=np.result_type(eps, float))
         if not tuple(self.shape) == self.eps.shape:
             raise AttributeError(f'Require grid.shape == eps.shape but got '
                                  f'{self.shape} != {self.eps.shape}')
-- 
2.43.0


From 83af40fceef64f1e44b5866e0a84839caddfa5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 27/89] fix: round positions to pixels in Grid.fill and Box

Truncation lost a pixel whenever the quotient is just below an integer, e.g.
0.3 / 0.1, and a Box that starts left of or below the origin wrapped around.
---
 simphox/grid.py  | 2 +-
 simphox/utils.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 0b98b9a..6a350df 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -98,7 +98,7 @@ class Grid:
 
         """
         if height > 0:
-            self.eps[..., :int(height / self.spacing[-1])] = eps
+            self.eps[..., :int(np.around(height / self.spacing[-1]))] = eps
         else:
             self.eps = np.ones_like(self.eps) * eps
         return self
diff --git a/simphox/utils.py b/simphox/utils.py
index 06d02e3..c79a98a 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -90,11 +90,11 @@ class Box:
 
     @property
     def min_i(self):
-        return int(self.min[0] / self.spacing), int(self.min[1] / self.spacing)
+        return tuple(max(int(np.around(x / self.spacing)), 0) for x in self.min)
 
     @property
     def max_i(self):
-        return int(self.max[0] / self.spacing), int(self.max[1] / self.spacing)
+        return tuple(max(int(np.around(x / self.spacing)), 0) for x in self.max)
 
     @property
     def shape(self):
-- 
2.43.0


From 06f65f936115c5b65747a1ddc0ab755e29cf65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 28/89] fix: regions that extend beyond the lower end of a grid

A negative start counts from the end of the axis, so the region was empty.
---
 simphox/grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 6a350df..e40dee5 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -206,9 +206,10 @@ class Grid:
         # if s0 == s1 == s2 == 0:
         #     raise ValueError(f"Require the size result in a nonzero-sized shape, but got a single point in the grid"
         #                      f"(i.e., the size {size} may be less than the spacing {self.spacing3})")
-        return (slice(c[0] - s0, c[0] - s0 + shape[0]) if shape[0] > 0 else c0,
-                slice(c[1] - s1, c[1] - s1 + shape[1]) if shape[1] > 0 else c1,
-                slice(c[2] - s2, c[2] - s2 + shape[2]) if shape[2] > 0 else c2)
+        # a region can extend beyond the grid, but a negative start or stop would count from the end of the axis
+        return (slice(max(c[0] - s0, 0), max(c[0] - s0 + shape[0], 0)) if shape[0] > 0 else c0,
+                slice(max(c[1] - s1, 0), max(c[1] - s1 + shape[1], 0)) if shape[1] > 0 else c1,
+                slice(max(c[2] - s2, 0), max(c[2] - s2 + shape[2], 0)) if shape[2] > 0 else c2)
 
     def view_fn(self, center: Size3, size: Size3, use_jax: bool = True):
         """Return a function that views a field at specific region.
-- 
2.43.0


From 72b77c1fe0187bb08ee695e424d272fcb49397dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 29/89] fix: keep the shape of a grid with an axis of one pixel
 in set_eps and mask

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index e40dee5..e73468c 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -145,7 +145,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         eps_3d = self.eps.reshape(self.shape3)
         eps_3d[s] = eps
-        self.eps = eps_3d.squeeze()
+        self.eps = eps_3d.reshape(self.shape)
         return self
 
     def mask(self, center: Size3, size: Size3):
@@ -163,7 +163,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         mask = np.zeros(self.shape3)
         mask[s] = 1
-        return mask.squeeze()
+        return mask.reshape(self.shape)
 
     def reshape(self, v: np.ndarray) -> np.ndarray:
         """A simple method to reshape flat 3d field array into the grid shape
-- 
2.43.0


From 3cb4f5fd6e4c7929704f49b3a0166c3ac3c85f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 30/89] fix: bounds check, z extent and optional arguments of
 Grid.add

Only patterns left of the origin were rejected, the z extent was converted
with the x and y spacings, and the optional arguments were required.
---
 simphox/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index e73468c..98cb69d 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -117,14 +117,15 @@ class Grid:
 
         """
         b = component.bounds
-        if not b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]:
+        if not (b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]):
             raise ValueError('The pattern must have min x, y >= 0 and max x, y less than size.')
+        zmin, thickness = 0 if zmin is None else zmin, 0 if thickness is None else thickness
         self.components.append(component)
         mask = component.mask(self.shape[:2], self.spacing)[:self.eps.shape[0], :self.eps.shape[1]]
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(zmin / self.spacing[0]), int((zmin + thickness) / self.spacing[1]))
+            zidx = (int(np.around(zmin / self.spacing[2])), int(np.around((zmin + thickness) / self.spacing[2])))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
                      for port_name, port in component.port.items()}
-- 
2.43.0


From 719fa8854a73f572e567fc57c37b7ebf70d5c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 31/89] fix: shift_slice of a slice

---
 simphox/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index c79a98a..1704289 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -381,5 +381,5 @@ def shift_slice(slice_to_shift: Tuple[Union[slice, int], ...], shift: int = 1, a
         slices[axis] += shift
     elif isinstance(slices[axis], slice):
         if isinstance(slices[axis].start, int) and isinstance(slices[axis].stop, int):
-            slices[axis] += slice(slices[axis].start + shift, slices[axis].stop + shift)
+            slices[axis] = slice(slices[axis].start + shift, slices[axis].stop + shift)
     return tuple(slices)
-- 
2.43.0


From acb93df6413a9aef31be63a7d8f1e093b5451305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 32/89] fix: Bloch phase in the functional derivatives

The curl that yields the other field of an FDFD solution was periodic while
the solved operator had the Bloch phase, which an integer could not specify.
---
 simphox/grid.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 98cb69d..c747224 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -351,12 +351,12 @@ class YeeGrid(Grid):
         if pml is not None and not len(self.pml_shape) == len(self.shape):
             raise AttributeError('Need len(pml_shape) == grid.shape,'
                                  f'got ({len(pml)}, {len(self.shape)}).')
-        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if isinstance(bloch_phase, float) \
+        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if np.isscalar(bloch_phase) \
             else np.exp(1j * np.asarray(bloch_phase))
         if not len(self.bloch) == len(self.shape):
             raise AttributeError(f'Need bloch_phase.size == grid.shape,'
                                  f'got ({len(self.bloch)}, {len(self.shape)}).')
-        self.dtype = np.float64 if pml is None and bloch_phase == 0 else np.complex128
+        self.dtype = np.float64 if pml is None and np.all(np.asarray(bloch_phase) == 0) else np.complex128
         self._dxes = np.meshgrid(*self.cells, indexing='ij'), np.meshgrid(*self.cells, indexing='ij')
 
     def deriv(self, back: bool = False) -> List[sp.spmatrix]:
@@ -423,12 +423,22 @@ class YeeGrid(Grid):
         """
         xp = jnp if use_jax else np
         dx = jnp.array(self._dxes[of_h]) if use_jax else self._dxes[of_h]
+
+        def _roll(f, a):
+            rolled = xp.roll(f, 1 if of_h else -1, axis=a)
+            if a >= self.ndim or self.shape[a] == 1 or self.bloch[a] == 1:
+                return rolled
+            # the field that wraps around the boundary picks up the Bloch phase
+            phase = np.ones(self.shape[a], dtype=np.complex128)
+            phase[0 if of_h else -1] = np.conj(self.bloch[a]) if of_h else self.bloch[a]
+            return rolled * phase.reshape([-1 if ax == a else 1 for ax in range(f.ndim)])
+
         if of_h:
             def _diff(f, a):
-                return (f - xp.roll(f, 1, axis=a)) / dx[a]
+                return (f - _roll(f, a)) / dx[a]
         else:
             def _diff(f, a):
-                return (xp.roll(f, -1, axis=a) - f) / dx[a]
+                return (_roll(f, a) - f) / dx[a]
         return _diff
 
     def curl_fn(self, beta: Optional[float] = None, of_h: bool = False, use_jax: bool = False) -> Op:
-- 
2.43.0


From 34f4a233f6a6b09d1068e04cd4d507e855b541a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 33/89] fix: PML of an FDFD made from a SimGrid

The number of pixels was passed where a thickness in length units is expected.
---
 simphox/fdfd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 61503af..315799d 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -115,7 +115,7 @@ class FDFD(SimGrid):
             spacing=simgrid.spacing,
             wavelength=wavelength,
             eps=simgrid.eps,
-            pml=simgrid.pml_shape,
+            pml=simgrid.pml,
             name=simgrid.name
         )
         fdfd.port = simgrid.port
-- 
2.43.0


From 46b401d909a206f07f49ec7207db62a1a2888ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 34/89] fix: real sources in the FDFD fields function

The host callback requires the complex dtype of the solution.
---
 simphox/fdfd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 315799d..c29d87b 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -332,7 +332,7 @@ class FDFD(SimGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`).
 
         """
-        src = jnp.ravel(jnp.array(src))
+        src = jnp.ravel(jnp.array(src, dtype=jnp.complex128))
         k0 = self.k0
         transform_fn = transform_fn if transform_fn is not None else lambda x: x
         shape3 = self.shape3
-- 
2.43.0


From 7db6174af532274edb61d43a582f9bc788321a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 35/89] fix: use the wavelength of a simulation for its port
 sources and measurements

An FDFD at another wavelength was excited with the modes at 1.55.
---
 simphox/sim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index f965c32..244824f 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -128,13 +128,13 @@ class SimGrid(YeeGrid):
         return self._modes_cache[key]
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
-                   profile_size_factor: float = 3, wavelength: float = 1.55) -> Dict[PortLabel, SimCrossSection]:
+                   profile_size_factor: float = 3, wavelength: Optional[float] = None) -> Dict[PortLabel, SimCrossSection]:
         """Profile for all the ports in the grid (always assumed to be along x or y axes!).
 
         Args:
             excitation: Dictionary mapping port to mode index for excitations
             profile_size_factor: Factor to rescale the mode view slice compared to the port
-            wavelength: Wavelength for the modes
+            wavelength: Wavelength for the modes (if None, the wavelength of the simulation or 1.55)
 
         Returns:
             A dictionary from mode to SimCrossSection containing the mode, and its center and size in this grid
@@ -142,6 +142,7 @@ class SimGrid(YeeGrid):
 
         """
 
+        wavelength = getattr(self, 'wavelength', 1.55) if wavelength is None else wavelength
         excitation = self.parse_excitation(excitation)
         port_names = {e[0] for e in excitation}
         num_modes = {name: np.max([mode_idx for port_name, mode_idx in excitation if port_name == name]) + 1
@@ -154,7 +155,7 @@ class SimGrid(YeeGrid):
 
     def port_source(self, source: Optional[Union[Dict[Tuple[str, int], float], Dict[str, float]]] = None,
                     profile_size_factor: float = 3, unidirectional: bool = True,
-                    wavelength: float = 1.55) -> np.ndarray:
+                    wavelength: Optional[float] = None) -> np.ndarray:
         """Return a non-sparse source array based on the ports defined in the simulation grid.
 
         Args:
@@ -165,7 +166,7 @@ class SimGrid(YeeGrid):
             profile_size_factor: Factor to rescale the mode view slice compared to the port
             unidirectional: In FDFD, this specifies whether to send the mode in unidirectionally, determined
                 using the port angle.
-            wavelength: Wavelength for the source
+            wavelength: Wavelength for the source (if None, the wavelength of the simulation or 1.55)
 
         Returns:
             The non-sparse source array that can be used as a source profile for either FDFD or FDTD
@@ -194,13 +195,13 @@ class SimGrid(YeeGrid):
     def parse_excitation(self, excitation: Optional[Excitation] = None):
         return [(port, 0) for port in self.port] if excitation is None else parse_excitation(excitation)
 
-    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: float = 1.55,
+    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: Optional[float] = None,
                        profile_size_factor: float = 3, use_jax: bool = False, tm_2d: bool = True) -> Op:
         """Measure function: measure the fields using the Modes object provided for each port.
 
         Args:
             measure_port: List of port name and mode index at that port.
-            wavelength: The wavelength for the measurement.
+            wavelength: The wavelength for the measurement (if None, the wavelength of the simulation or 1.55).
             profile_size_factor: Factor to rescale the mode view slice compared to the port.
             use_jax: Whether to use jax in the measure function (relevant for simulations).
             tm_2d: Whether to use TM polarization (applies to the 2D case only).
-- 
2.43.0


From 3f24f1088d8406aece1692ed21bd1920127fed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 36/89] fix: measure the requested ports in get_sim_sparams_fn

measure_info only selected the index of the source in the measurement of all ports.
---
 simphox/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 244824f..aeaa7a1 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -310,7 +310,7 @@ class SimGrid(YeeGrid):
         fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor),
                                        transform_fn=transform_fn,
                                        tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(measure_info, profile_size_factor=profile_size_factor, use_jax=True, tm_2d=tm_2d)
         port_idx = measure_info.index(source_info)
 
         # @jax.jit
-- 
2.43.0


From fd520f9af9de6ed4e9545d672ff8117ffe86c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 37/89] fix: polarity of port measurements

The polarities were in the order of a set of strings, which depends on the
hash seed, and only as many entries as there are ports were measured.
---
 simphox/sim.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index aeaa7a1..1d8a0eb 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -213,9 +213,8 @@ class SimGrid(YeeGrid):
         # Set up the port profiles for measurement at each port (by default assumes single mode waveguides)
         measure_port = self.parse_excitation(measure_port)
         port_to_modes = self.port_modes(measure_port, profile_size_factor, wavelength)
-        ports = port_to_modes.keys()
-        port_nums = np.arange(len(ports))
-        angles = [self.port[port].a for port in ports]
+        port_nums = np.arange(len(measure_port))
+        angles = [self.port[port_name].a for port_name, _ in measure_port]
         # We measure polarity, which is the orientation of the measurement interface
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
-- 
2.43.0


From bba78ed29815c78e0a7154358b0087edf5e244ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 38/89] fix: port sources by port name, for higher modes and in
 3d

The documented {port: weight} form failed, only the fundamental mode of each
port was solved, and 3d sources were rolled along the wrong axis.
---
 simphox/sim.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 1d8a0eb..8f2071f 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -4,7 +4,7 @@ import jax.numpy as jnp
 
 from .grid import YeeGrid
 from .mode import ModeSolver, ModeLibrary
-from .parse import parse_excitation
+from .parse import parse_excitation, parse_source_port
 from .typing import Excitation, Spacing, Shape, Union, Size, Optional, List, Tuple, Size2, Dict, Size3, \
     Callable, \
     MeasureInfo, Op, PortLabel
@@ -176,7 +176,8 @@ class SimGrid(YeeGrid):
         # if the source is a list of numbers, just assign the appropriate weight to the port's fundamental mode
         source = {(ports[0], 0): 1} if source is None else source
         source = {(port, 0): weight for port, weight in zip(ports, source)} if isinstance(source, tuple) else source
-        source_library = self.port_modes(profile_size_factor=profile_size_factor, wavelength=wavelength)
+        source = parse_source_port(source)
+        source_library = self.port_modes(list(source), profile_size_factor=profile_size_factor, wavelength=wavelength)
 
         sources_to_sum = []
         for port_mode, weight in source.items():
@@ -185,9 +186,10 @@ class SimGrid(YeeGrid):
             beta = source_library[port].io.betas[mode]
             shift = 2 * (np.mod(self.port[port].a, 360) < 180) - 1
             src = source_library[port].place(mode, self) * weight
-            src = np.roll(src, axis=axis, shift=2 * shift)
+            src_axis = axis + src.ndim - self.ndim  # the first axis of a source in 3d is the field direction
+            src = np.roll(src, axis=src_axis, shift=2 * shift)
             if unidirectional:
-                src += np.roll(src, axis=axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
+                src += np.roll(src, axis=src_axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
             sources_to_sum.append(src)
 
         return sum(sources_to_sum) if sources_to_sum else np.array([])
-- 
2.43.0


From b8a6d2ba0bb0192c997217f2cbccb0fe28c5ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 39/89] fix: parse lists with a single port name

---
 simphox/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/parse.py b/simphox/parse.py
index 65a5f04..25f8959 100644
--- a/simphox/parse.py
+++ b/simphox/parse.py
@@ -14,7 +14,7 @@ def parse_excitation(excitation: Excitation):
     if isinstance(excitation, str):
         return [(excitation, 0)]
     elif isinstance(excitation, tuple) or isinstance(excitation, list):
-        if (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int) and len(excitation) == 2:
+        if len(excitation) == 2 and isinstance(excitation[0], (str, int)) and isinstance(excitation[1], int):
             return [excitation]
         return sum([parse_excitation(mi) for mi in excitation], [])
     elif isinstance(excitation, dict):
@@ -34,7 +34,7 @@ def parse_source_port(source: SourceLabel):
     if isinstance(source, str):
         return {(source, 0): 1}
     elif isinstance(source, tuple) or isinstance(source, list):
-        if isinstance(source[0], str) and isinstance(source[1], int) and len(source) == 2:
+        if len(source) == 2 and isinstance(source[0], str) and isinstance(source[1], int):
             return {tuple(source): 1}
         return {k: v for mi in source for k, v in parse_source_port(mi).items()}
     elif isinstance(source, dict):
-- 
2.43.0


From aaa1498a7e9c5b3848d289dcfea9ac387b6fffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 40/89] fix: propagation constants when some eigenmodes are
 evanescent

The sorted guided eigenvalues were indexed with positions among all eigenvalues.
---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index e075247..b42b02f 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -203,7 +203,7 @@ class ModeSolver(YeeGrid):
 
         h = h.T
         # max_phase_ref = np.array([h[i, idx] for i, idx in enumerate(np.argmax(np.abs(h), axis=1))])[:, np.newaxis]
-        return np.sqrt(eigvals[useful_modes].real), h * np.exp(-1j * np.angle(h[:, :1]))
+        return np.sqrt(eigvals.real), h * np.exp(-1j * np.angle(h[:, :1]))
 
     def dispersion_sweep(self, wavelengths: np.ndarray, m: int = 6, pbar: Callable = None):
         """Dispersion sweep for cross sectional modes
-- 
2.43.0


From 06f2da0a60e0a1a2d69ff14bf6a0c6a7cfc24780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 41/89] fix: solve at the given wavelengths in dispersion_sweep

It failed without a progress bar and else used the wavelength as a guess of beta.
---
 simphox/mode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b42b02f..e571f5f 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -218,9 +218,11 @@ class ModeSolver(YeeGrid):
 
         """
         solutions = []
-        pbar = range if pbar is None else pbar
-        for wavelength in pbar(wavelengths):
-            solutions.append(self.solve(m, wavelength))
+        original_wavelength = self.wavelength
+        for wavelength in (wavelengths if pbar is None else pbar(wavelengths)):
+            self.wavelength = wavelength
+            solutions.append(self.solve(m))
+        self.wavelength = original_wavelength
         return solutions
 
 
-- 
2.43.0


From a14fbcb2ff6fc969cc6d8e1081f633b8a03d4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 42/89] fix: place modes of a 2d cross section in a 3d grid

The region was applied to the field direction axis, and the field components
were not oriented like the cross section.
---
 simphox/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index e571f5f..b38f173 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -502,6 +502,7 @@ class ModeLibrary:
         """
         region = grid.slice(center, size)
         if self.ndim == 2:
+            region = grid.slice(center, size, squeezed=False)
             # Find the place axis (the poynting direction, where the size should be 0)
             place_axis = np.where(np.array(size) == 0)[0][0]
 
@@ -515,7 +516,7 @@ class ModeLibrary:
                 np.asarray((0, 1, 2), dtype=int)
             ][place_axis]
             x = np.zeros((3, *grid.shape), dtype=np.complex128)
-            x[(None,) + region] = self.h(mode_idx).transpose((0, *tuple(1 + axes)))
+            x[(slice(None),) + region] = self.h(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
         else:
             x = np.zeros(grid.shape, dtype=np.complex128)
             x[region[:2]] = self.modes[mode_idx]
-- 
2.43.0


From b41ab786d6692688649b4831342c0c813f19c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 43/89] fix: fidelity for complex target sparams

---
 simphox/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 8f2071f..e450b1e 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -488,7 +488,7 @@ class SimGrid(YeeGrid):
         for port, weight in desired_sparams.items():
             key = (port, 0) if isinstance(port, str) else port
             s[measure_info.index(key)] = weight
-        s = jnp.array(s / np.linalg.norm(s))
+        s = jnp.array(s / np.linalg.norm(s)).conj()  # conjugate for the overlap with the measured sparams
 
         if insertion_weight != 0:
             def obj(sparams_fields: Tuple[jnp.ndarray, jnp.ndarray]):
-- 
2.43.0


From 38406d2d906687b15705be32c7bf088268804d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 44/89] fix: do not change the given state in an FDTD step

The step is documented as stateless, but overwrote the fields (numpy) and PML
vectors of its argument, also breaking the time average in run_cw_port.
---
 simphox/fdtd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 61a60ed..70dbbc1 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -117,13 +117,14 @@ class FDTD(SimGrid):
         e, h, psi_e, psi_h = state
         eps_t = self.eps_t
         # update pml in pml regions if specified
+        psi_e = None if psi_e is None else list(psi_e)
         phi_e = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_e[pml_idx], p = self._curl_h_pml[pml_idx](h, psi_e[pml_idx], self.cpml_b[pml_idx][1])
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / eps_t * self.dt
+        e = e + self._curl_h(h) / eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
@@ -144,13 +145,14 @@ class FDTD(SimGrid):
     def _step_h(self, state: State, sources: List[Source]):
         e, h, psi_e, psi_h = state
         # update h field in pml regions if specified
+        psi_h = None if psi_h is None else list(psi_h)
         phi_h = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_h[pml_idx], p = self._curl_e_pml[pml_idx](e, psi_h[pml_idx], self.cpml_b[pml_idx][0])
             phi_h.append(p)
 
         # update h field
-        h -= self._curl_e(e) * self.dt
+        h = h - self._curl_e(e) * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-- 
2.43.0


From c8c4e385310e5adaad81dfe72390ca3c98802f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 45/89] fix: add sources to the fields in the jax FDTD step

The fields in the source region were replaced, unlike in the numpy step.
---
 simphox/fdtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 70dbbc1..b9a643c 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -136,7 +136,7 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.squeeze() / eps_t[source_region] * self.dt)
                 else:
                     e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
 
@@ -164,7 +164,7 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].set(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source.squeeze() * self.dt)
                 else:
                     h[source_region] -= source.squeeze() * self.dt
 
-- 
2.43.0


From 1477ed7079d4cd55a5577bbb44714b3699c087fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 46/89] fix: accumulate the PML vectors recursively in FDTD

Only the contribution of the previous step was kept, so the PML was unstable.
---
 simphox/utils.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 1704289..56642fb 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -180,15 +180,14 @@ def curl_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False,
 def curl_pml_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False):
     xp = jnp if use_jax else np
 
-    def _curl(f: np.ndarray, prev_df: np.ndarray, b_pml: np.ndarray):
-        next_df = xp.stack(
-            [df(f[2], 1), df(f[1], 2),
-             df(f[0], 2), df(f[2], 0),
-             df(f[1], 0), df(f[0], 1)]
+    def _curl(f: np.ndarray, psi: np.ndarray, b_pml: np.ndarray):
+        # recursive convolution: the decayed psi of the previous step is part of the next psi
+        psi = xp.stack(
+            [df(f[2], 1) + psi[0] * b_pml[1], df(f[1], 2) + psi[1] * b_pml[2],
+             df(f[0], 2) + psi[2] * b_pml[2], df(f[2], 0) + psi[3] * b_pml[0],
+             df(f[1], 0) + psi[4] * b_pml[0], df(f[0], 1) + psi[5] * b_pml[1]]
         )
-        return next_df, xp.stack([next_df[0] + prev_df[0] * b_pml[1] - next_df[1] - prev_df[1] * b_pml[2],
-                                  next_df[2] + prev_df[2] * b_pml[2] - next_df[3] - prev_df[3] * b_pml[0],
-                                  next_df[4] + prev_df[4] * b_pml[0] - next_df[5] - prev_df[5] * b_pml[1]])
+        return psi, xp.stack([psi[0] - psi[1], psi[2] - psi[3], psi[4] - psi[5]])
     return _curl
 
 
-- 
2.43.0


From 02cb463e19fc6f04905ed74bec495bc60aac7185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 47/89] fix: PML of FDTD simulations in 1d and 2d

The regions were defined for three axes, so the constructor failed.
---
 simphox/fdtd.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index b9a643c..4344bcd 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -309,15 +309,13 @@ class FDTD(SimGrid):
         exp_scale, log_reflection, absorption_corr = pml_params
         kappa, alpha = 1, 1e-8  # TODO: make these params
         self.sigma = [-pml_sigma(self.pos[ax], thickness=self.pml_shape[ax], exp_scale=exp_scale,
-                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(3)]
+                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(self.ndim)]
         # for memory and time purposes, we only update the pml slices, NOT the full field
         # therefore, we need to specify the pml regions for the fields.
-        self.pml_regions = ((slice(None), slice(None, self.pml_shape[0]), slice(None), slice(None)),
-                            (slice(None), slice(-self.pml_shape[0], None), slice(None), slice(None)),
-                            (slice(None), slice(None), slice(None, self.pml_shape[1]), slice(None)),
-                            (slice(None), slice(None), slice(-self.pml_shape[1], None), slice(None)),
-                            (slice(None), slice(None), slice(None), slice(None, self.pml_shape[2])),
-                            (slice(None), slice(None), slice(None), slice(-self.pml_shape[2], None)))
+        self.pml_regions = tuple(
+            (slice(None),) + tuple(pml_slice if i == ax else slice(None) for i in range(3))
+            for ax in range(self.ndim) for pml_slice in (slice(None, self.pml_shape[ax]), slice(-self.pml_shape[ax], None))
+        )
 
         for i, region in enumerate(self.pml_regions):
             ax = i // 2
-- 
2.43.0


From 108eda5b5d5383593f520bb1d70ab7edfbfdbd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 48/89] fix: measure with the modes at the source wavelength in
 run_cw_port

---
 simphox/fdtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 4344bcd..e008e15 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -265,7 +265,7 @@ class FDTD(SimGrid):
         source_excitation = list(parse_source_port(source_port).keys())
         source_modes = self.port_modes(excitation=source_excitation,
                                        profile_size_factor=profile_size_factor, wavelength=wavelength)
-        measure_fn = self.get_measure_fn(measure_port, use_jax=self.use_jax,
+        measure_fn = self.get_measure_fn(measure_port, wavelength=wavelength, use_jax=self.use_jax,
                                          profile_size_factor=profile_size_factor, tm_2d=tm_2d)
         state = self.zero_state if initial_state is None else initial_state
         iterator = range(num_time_steps) if pbar is None else pbar(np.arange(num_time_steps))
-- 
2.43.0


From 9ba0323beb543b043f52bd5e15ed646fc367819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 49/89] fix: orthogonal symmetry of params with an even number
 of pixels

The overlapping halves left the two central rows and columns swapped.
---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 3895baf..6238b47 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -54,8 +54,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[-(x.shape[0] // 2 + 1):, :].set(x[:x.shape[0] // 2 + 1:, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, -(x.shape[1] // 2 + 1):].set(x[:, :x.shape[1] // 2 + 1][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: x.at[x.shape[0] - x.shape[0] // 2:, :].set(x[:x.shape[0] // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: x.at[:, x.shape[1] - x.shape[1] // 2:].set(x[:, :x.shape[1] // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From 71bcd83bc2b15fc68e575b25f11cc35115ec7ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 50/89] fix: optimization runs without a visualization or
 progress bar

Both are optional but required by opt_run, metrics were only recorded with a
visualization, and their iterations assumed an interval of one.
---
 simphox/opt.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 99f3265..c74ce5d 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -188,6 +188,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
 
     costs = []
     history = defaultdict(list)
+    all_metric_names = []
 
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
@@ -202,18 +203,19 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 field_pipe.send(hz.real / np.max(hz.real))
                 power = np.abs(hz) ** 2
                 power_pipe.send(power / np.max(power))
-            if metric_interval > 0 and i % metric_interval == 0 and viz is not None:
+            if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
                     history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
-                for title in viz.metrics_pipes[sop.sim.name]:
+                all_metric_names = list(metrics)
+                for title in (viz.metrics_pipes[sop.sim.name] if viz is not None else []):
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
                             data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
-                                'iteration': np.arange(i + 1)
+                                'iteration': np.arange(0, i + 1, metric_interval)
                             },
                             dims=['metric', 'iteration'],
                             name=title
@@ -223,24 +225,26 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
                 history[f'field/{sop.sim.name}'].append((i, hz.T))
-        iterator.set_description(f"𝓛: {v:.5f}")
+        if pbar is not None:
+            iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
         if viz is not None:
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
+    if viz is not None:
+        all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
     metrics = xarray.DataArray(
         data=np.array([[history[f'{metric_name}/{sop.sim.name}']
                         for metric_name in all_metric_names] for sop in sim_opt_problems]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
-            'iteration': np.arange(num_iters)
+            'iteration': np.arange(0, num_iters, metric_interval)
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-    ) if sim_opt_problems and metric_interval != 0 else []
+    ) if sim_opt_problems and metric_interval != 0 and all_metric_names else []
     eps = xarray.DataArray(
         data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
                        for sop in sim_opt_problems]),
-- 
2.43.0


From 64ca8ee2fa099fc477eb9423c8d4f9c98024ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 51/89] fix: optimization problems without a simulation, source
 or transform

The documented C(T(rho)) was C(rho), and the missing simulation was accessed.
---
 simphox/opt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index c74ce5d..8bb70f1 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -168,7 +168,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     solve_fn = [None if (op.source is None or op.sim is None) else op.fn for op in opt_problems]
 
     def overall_cost_fn(rho: jnp.ndarray):
-        evals = [op.cost_fn(s(rho)) if s is not None else op.cost_fn(rho) for op, s in zip(opt_problems, solve_fn)]
+        evals = [op.cost_fn(s(rho)) if s is not None else op.cost_fn(op.fn(rho) if op.fn is not None else rho)
+                 for op, s in zip(opt_problems, solve_fn)]
         return jnp.array([obj for obj, _ in evals]).sum() / n_problems, [aux for _, aux in evals]
 
     # Define a compiled update step
@@ -180,7 +181,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     def _update_eps(state):
         rho = get_params(state)
         for op in opt_problems:
-            op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
+            if op.sim is not None:
+                eps = op.transform_fn(rho) if op.transform_fn is not None else rho
+                op.sim.eps = np.array(jax.lax.stop_gradient(eps))
 
     step = jax.jit(step_, backend=backend)
 
@@ -193,7 +196,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
-        for sop, sparams_fields in zip(sim_opt_problems, data):
+        sim_data = [aux for aux, s in zip(data, solve_fn) if s is not None]
+        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
-- 
2.43.0


From e7310fadf5b44eac7596c67165d06fb6bb75649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 52/89] fix: record the permittivity of the same iteration as
 the fields in opt_run

The recorded and visualized permittivity was the one after the update.
---
 simphox/opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 8bb70f1..09f0cc8 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -194,8 +194,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     all_metric_names = []
 
     for i in iterator:
+        _update_eps(opt_state)  # the permittivity that yields the cost, sparams and fields of this iteration
         v, opt_state, data = step(i, opt_state)
-        _update_eps(opt_state)
         sim_data = [aux for aux, s in zip(data, solve_fn) if s is not None]
         for sop, sparams_fields in zip(sim_opt_problems, sim_data):
             sim = sop.sim
-- 
2.43.0


From ec6d85f5f1059d18ac807c7e5cf995330dfa8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 53/89] fix: propagate the identity when ForwardMesh.propagate
 is given no inputs

The inputs are optional, but None was used as an array.
---
 simphox/circuit/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 07b8e92..35f7e2c 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -437,7 +437,8 @@ class ForwardMesh:
             Propagated fields
 
         """
-        return self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)(inputs=inputs)
+        propagate_fn = self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)
+        return propagate_fn() if inputs is None else propagate_fn(inputs=inputs)
 
     @property
     def nullification_basis(self):
-- 
2.43.0


From 0b3172a0e8131086a49abb8e86fefb07fa6bd2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 54/89] fix: cross block of the Hessian of a vector unit was
 transposed

---
 simphox/circuit/vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index e2182a3..8ea86c1 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -256,7 +256,7 @@ def hessian_vector_unit(v: np.ndarray, balanced: bool = True):
         theta_phi[..., nid][(mesh.nodes[i].top_descendants,)] = mesh.pn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].top_descendants,)] = mesh.pnsn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].bot_descendants,)] = mesh.pnsn[(mesh.nodes[i].bot_descendants,)]
-    h = np.block([[theta_theta, (theta_phi + phi_theta).T], [(theta_phi + phi_theta), phi_phi]])
+    h = np.block([[theta_theta, theta_phi + phi_theta], [(theta_phi + phi_theta).T, phi_phi]])
     return h
 
 
@@ -307,9 +307,9 @@ def hessian_fd(v: np.ndarray, error=0.0001, balanced=False):
             theta_phi_nn = (mesh.thetas - e[i], mesh.phis - e[j], mesh.gammas)
             h[i, j] = np.real(err(theta_pp) + err(theta_nn) - err(theta_pn) - err(theta_np)) / (4 * error ** 2)
             h[i + n - 1, j + n - 1] = np.real(err(phi_pp) + err(phi_nn) - err(phi_pn) - err(phi_np)) / (4 * error ** 2)
-            h[i + n - 1, j] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
+            h[i, j + n - 1] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
                 4 * error ** 2)
-            h[j, i + n - 1] = h[i + n - 1, j]
+            h[j + n - 1, i] = h[i, j + n - 1]
     return h
 
 
-- 
2.43.0


From 828ba1818384715b31a7f82f58ab0f861c6b2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 55/89] fix: solver handle unusable after a failed
 factorization

---
 simphox/mkl.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index a4dd083..48d8f91 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -160,9 +160,19 @@ class Pardiso:
         try:
             return self.pardiso(rhs)
         except RuntimeError:
-            self._mat_hash = 0  # there is no usable factorization to reuse
+            self._reset()
             raise
 
+    def _reset(self):
+        # a failed factorization cannot be reused and can make all later calls with the same handle fail
+        self.phase = PARDISO_FREEFACTOR
+        try:
+            self.pardiso()
+        except RuntimeError:
+            pass
+        self.pt[:] = 0
+        self._mat_hash = 0
+
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
         if self._mat_hash == 0:
             raise RuntimeError('Mat information not stored in Pardiso.')
-- 
2.43.0


From 5bad5ab919cd516441a49cdc395ba86ccc395a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 56/89] fix: pass contiguous arrays to Pardiso

---
 simphox/mkl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 48d8f91..7d229bf 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -125,13 +125,13 @@ class Pardiso:
 
         self.mat: sp.csr_matrix = mat
 
-        self.a = self.mat.data
+        self.a = np.ascontiguousarray(self.mat.data)
         self.a_ = self.a.ctypes.data_as(self.ctypes_dtype)
 
-        self.ia = self.mat.indptr
+        self.ia = np.ascontiguousarray(self.mat.indptr, dtype=np.int32)
         self.ia_ = self.ia.ctypes.data_as(POINTER(c_int))
 
-        self.ja = self.mat.indices
+        self.ja = np.ascontiguousarray(self.mat.indices, dtype=np.int32)
         self.ja_ = self.ja.ctypes.data_as(POINTER(c_int))
 
         self.n = mat.shape[0]
-- 
2.43.0


From 8f9ae12ec193d75531567b11f4f8e53e2ae4ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 57/89] fix: factorize again after the memory of Pardiso has
 been freed

---
 simphox/mkl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 7d229bf..db2d768 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -139,6 +139,7 @@ class Pardiso:
     def free(self, complete: bool = True):
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
         self.pardiso()
+        self._mat_hash = 0  # the next solve needs to factorize again
 
     def factor(self, mat: sp.csr_matrix):
         self._run(mat, PARDISO_FACTORIZE)
-- 
2.43.0


From de31c0203e7795a81c1a545dc4575dd9a1d26d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 58/89] fix: sparse solves of matrices with duplicate entries

---
 simphox/mkl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index db2d768..71bf171 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -120,8 +120,9 @@ class Pardiso:
         if mat.shape[0] != mat.shape[1] or mat.ndim > 2:
             raise ValueError(f'Expected mat square (i.e., shape (n, n)), but has shape: {mat.shape}')
 
-        if not mat.has_sorted_indices:
-            mat.sort_indices()
+        if not mat.has_canonical_format:
+            mat = mat.copy()
+            mat.sum_duplicates()  # sorts the indices as well
 
         self.mat: sp.csr_matrix = mat
 
-- 
2.43.0


From 88da24518d1f2bceb3da8396dd87d2efdb456697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 59/89] fix: concurrent sparse solves from several threads
 share one Pardiso handle

---
 simphox/mkl.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 71bf171..1109d6a 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -1,5 +1,6 @@
 from .typing import Optional
 import sys
+from threading import RLock
 from ctypes import CDLL, byref, c_char, c_int, c_int64, POINTER, c_float, c_double
 
 import numpy as np
@@ -100,6 +101,7 @@ class Pardiso:
         self.iparm[34] = 1  # Zero-indexing
 
         self.phase = PARDISO_FULLSOLVE
+        self._lock = RLock()  # the handle and the matrix are shared by all threads that use this solver
         self._mat_hash = 0  # no matrix has been factorized yet, and this is an unlikely hash for it to be assigned
 
     @property
@@ -138,16 +140,19 @@ class Pardiso:
         self.n = mat.shape[0]
 
     def free(self, complete: bool = True):
-        self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
-        self.pardiso()
-        self._mat_hash = 0  # the next solve needs to factorize again
+        with self._lock:
+            self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
+            self.pardiso()
+            self._mat_hash = 0  # the next solve needs to factorize again
 
     def factor(self, mat: sp.csr_matrix):
-        self._run(mat, PARDISO_FACTORIZE)
+        with self._lock:
+            self._run(mat, PARDISO_FACTORIZE)
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        same_mat = self._hash(mat) == self._mat_hash
-        return self._run(mat, PARDISO_SOLVE if same_mat else PARDISO_FULLSOLVE, rhs)
+        with self._lock:
+            same_mat = self._hash(mat) == self._mat_hash
+            return self._run(mat, PARDISO_SOLVE if same_mat else PARDISO_FULLSOLVE, rhs)
 
     @staticmethod
     def _hash(mat: sp.csr_matrix) -> int:
-- 
2.43.0


From 5a5f12a4c4690d07ed57a748a5325577876ccb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 60/89] fix: FDFD.from_simgrid drops the Bloch phase and
 absorbing layer settings

---
 simphox/fdfd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index c29d87b..c01791e 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -115,7 +115,10 @@ class FDFD(SimGrid):
             spacing=simgrid.spacing,
             wavelength=wavelength,
             eps=simgrid.eps,
+            bloch_phase=np.angle(simgrid.bloch),
             pml=simgrid.pml,
+            pml_sep=simgrid.pml_sep,
+            pml_params=simgrid.pml_params[:3],
             name=simgrid.name
         )
         fdfd.port = simgrid.port
-- 
2.43.0


From 2eb9fe7aa924bcdf3f5e19c14f381fc5dd8d2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 61/89] fix: optimisation history mixes problems whose
 simulations share a name

---
 simphox/opt.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 09f0cc8..04e15a9 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -197,7 +197,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         _update_eps(opt_state)  # the permittivity that yields the cost, sparams and fields of this iteration
         v, opt_state, data = step(i, opt_state)
         sim_data = [aux for aux, s in zip(data, solve_fn) if s is not None]
-        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
+        for idx, (sop, sparams_fields) in enumerate(zip(sim_opt_problems, sim_data)):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
@@ -210,12 +210,12 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
-                    history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
+                    history[f'metric/{metric_name}/{idx}'].append(metric_value)
                 all_metric_names = list(metrics)
                 for title in (viz.metrics_pipes[sop.sim.name] if viz is not None else []):
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
-                            data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
+                            data=np.asarray([history[f'metric/{metric_name}/{idx}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
@@ -226,9 +226,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                         )
                     )
             if eps_interval > 0 and i % eps_interval == 0:
-                history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
+                history[f'eps/{idx}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
-                history[f'field/{sop.sim.name}'].append((i, hz.T))
+                history[f'field/{idx}'].append((i, hz.T))
         if pbar is not None:
             iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
@@ -239,8 +239,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     if viz is not None:
         all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{sop.sim.name}']
-                        for metric_name in all_metric_names] for sop in sim_opt_problems]),
+        data=np.array([[history[f'metric/{metric_name}/{idx}']
+                        for metric_name in all_metric_names] for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
@@ -250,11 +250,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='metrics'
     ) if sim_opt_problems and metric_interval != 0 and all_metric_names else []
     eps = xarray.DataArray(
-        data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
-                       for sop in sim_opt_problems]),
+        data=np.array([[eps for _, eps in history[f'eps/{idx}']] if eps_interval > 0 else []
+                       for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'eps/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['eps/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
@@ -262,11 +262,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='eps'
     ) if sim_opt_problems and eps_interval != 0 else []
     fields = xarray.DataArray(
-        data=np.asarray([[field for _, field in history[f'field/{sop.sim.name}']] if field_interval > 0 else []
-                         for sop in sim_opt_problems]),
+        data=np.asarray([[field for _, field in history[f'field/{idx}']] if field_interval > 0 else []
+                         for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'field/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['field/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
-- 
2.43.0


From 1798d3aa65486aba9aa8db2909365438e2bd267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 62/89] fix: zero-thickness regions left of the grid wrap
 around to its end

---
 simphox/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/grid.py b/simphox/grid.py
index c747224..da1c0a9 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -200,6 +200,8 @@ class Grid:
         c = np.around(np.asarray(center) / self.spacing3).astype(int)  # assume isotropic for now...
         shape = np.around(np.asarray(size) / self.spacing3).astype(int)
 
+        if np.any((shape == 0) & (c < 0)):
+            raise IndexError(f"The center {center} is outside of the grid.")  # instead of counting from the end
         s0, s1, s2 = shape[0] // 2, shape[1] // 2, shape[2] // 2
         c0 = c[0] if squeezed else slice(c[0], c[0] + 1)
         c1 = c[1] if squeezed else slice(c[1], c[1] + 1)
-- 
2.43.0


From fcf775befdce7bb5457214fb87f4659ade55d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 63/89] fix: sparse solver refuses regular systems after an
 unlucky matching

---
 simphox/mkl.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 1109d6a..601ef5b 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -167,8 +167,18 @@ class Pardiso:
         try:
             return self.pardiso(rhs)
         except RuntimeError:
+            perturbed = self.iparm[13] > 0 and self.iparm[12] > 0
             self._reset()
-            raise
+            if not perturbed or phase != PARDISO_FULLSOLVE:
+                raise
+        # the weighted matching can lead to a zero pivot in a regular system, a singular one fails without it as well
+        matching, self.iparm[12] = self.iparm[12], 0
+        try:
+            self._mat_hash, self.phase = mat_hash, phase
+            return self.pardiso(rhs)
+        finally:
+            self._reset()
+            self.iparm[12] = matching
 
     def _reset(self):
         # a failed factorization cannot be reused and can make all later calls with the same handle fail
-- 
2.43.0


From 13d59492b80b33cd138fa08000d8702920f6c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 64/89] fix: cached port modes after their library is updated
 to another wavelength

---
 simphox/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index e450b1e..21346b7 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -118,7 +118,8 @@ class SimGrid(YeeGrid):
         section = self.eps.reshape(self.shape3)[self.slice(center, size, squeezed=False)]
         mode_eps, mode_spacing = section.squeeze().copy(), self.spacing3[np.array(section.shape) > 1]
         key = (tuple(center), tuple(size), wavelength, num_modes, mode_eps.tobytes())
-        if key not in self._modes_cache:
+        # the library of an earlier call might have been updated to another wavelength since
+        if key not in self._modes_cache or self._modes_cache[key].io.solver.wavelength != wavelength:
             mode_size = tuple(np.array(mode_eps.shape) * mode_spacing)
             modes = ModeLibrary(
                 ModeSolver(size=mode_size, spacing=mode_spacing, eps=mode_eps, wavelength=wavelength),
-- 
2.43.0


From 65077900a4c19ba56766af0276d1eeddc4b3af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 65/89] fix: mode solver shift coincides with an eigenvalue in
 uniform media

---
 simphox/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b38f173..b4d1108 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -179,7 +179,8 @@ class ModeSolver(YeeGrid):
 
         df = self.deriv_forward
         if isinstance(beta_guess, float) or beta_guess is None:
-            sigma = beta_guess ** 2 if beta_guess else (self.k0 * np.sqrt(np.max(self.eps))) ** 2
+            # the default shift is just above all eigenvalues (k0^2 max(eps) itself is the largest one if eps is uniform)
+            sigma = beta_guess ** 2 if beta_guess else 1.0001 * (self.k0 * np.sqrt(np.max(self.eps))) ** 2
             eigvals, eigvecs = eigs(self.waveguide_mode_matrix, k=max_num_modes, sigma=sigma, tol=tol)
         elif isinstance(beta_guess, tuple):
             erange = beta_guess[0] ** 2, beta_guess[1] ** 2
-- 
2.43.0


From aa7f44cdeffb5c00cccfcd69607862b714b49c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 66/89] fix: mode solver with a range of propagation constants
 returns entries outside of the range

---
 simphox/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b4d1108..e536881 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -184,7 +184,8 @@ class ModeSolver(YeeGrid):
             eigvals, eigvecs = eigs(self.waveguide_mode_matrix, k=max_num_modes, sigma=sigma, tol=tol)
         elif isinstance(beta_guess, tuple):
             erange = beta_guess[0] ** 2, beta_guess[1] ** 2
-            eigvals, eigvecs, _, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            eigvals, eigvecs, m, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            eigvals, eigvecs = eigvals[:m], eigvecs[:, :m]  # the remaining entries are not in the range
         else:
             raise TypeError(f'Expected beta_guess to be None, float, or Tuple[float, float] but got {type(beta_guess)}')
 
-- 
2.43.0


From e88c940910a098add316e65eba956d8a08f63ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 67/89] fix: clip components below the grid instead of wrapping
 them around to its top

---
 simphox/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index da1c0a9..debc59b 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -125,7 +125,9 @@ class Grid:
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(np.around(zmin / self.spacing[2])), int(np.around((zmin + thickness) / self.spacing[2])))
+            # a negative start or stop would count from the end of the axis
+            zidx = (max(int(np.around(zmin / self.spacing[2])), 0),
+                    max(int(np.around((zmin + thickness) / self.spacing[2])), 0))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
                      for port_name, port in component.port.items()}
-- 
2.43.0


From 7ad8a6056883d5d239ea406529546b572df04853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 68/89] fix: keep the rib of a cross section without a
 substrate

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index debc59b..95988d4 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -306,7 +306,8 @@ class Grid:
         """
         if rib_y > 0:
             self.fill(rib_y + sub_height, waveguide.eps)
-        self.fill(sub_height, sub_eps)
+        if sub_height > 0 or rib_y <= 0:  # without a substrate, the fill would replace the rib
+            self.fill(sub_height, sub_eps)
         waveguide.align(self.center)
         if wg_height:
             waveguide.valign(wg_height)
-- 
2.43.0


From 4628888acf522020f32dd67f7d40d486a08a53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 69/89] fix: absorbing layers of a whole number of pixels lose
 one to rounding

---
 simphox/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 95988d4..474d3fa 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -347,7 +347,9 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
+        # a thickness of a whole number of pixels keeps this number (0.3 / 0.1 is slightly less than 3)
+        self.pml_shape = pml if pml is None else \
+            np.floor(np.asarray(pml, dtype=float) / self.spacing + 1e-6).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
-- 
2.43.0


From 2d0db4aa3aa69fa9e1fd760592b4b145494d6f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 70/89] fix: tell incoming and outgoing waves of ports along y
 apart the right way round

---
 simphox/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simphox/sim.py b/simphox/sim.py
index 21346b7..797ec17 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -222,6 +222,9 @@ class SimGrid(YeeGrid):
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
         polarity = 2 * (np.mod(angles, 360) < 180).astype(int) - 1
+        # The fields viewed along y are left-handed, i.e. (x, z, y), so their forward and backward waves are swapped.
+        polarity = [-p if port_to_modes[port_name].prop_axis == 1 else p
+                    for p, (port_name, _) in zip(polarity, measure_port)]
         measure_fns = [port_to_modes[port_name].io.measure_fn(m, use_jax, tm_2d=tm_2d) for port_name, m in measure_port]
         view_fns = [self.view_fn(port_to_modes[port_name].center, port_to_modes[port_name].size, use_jax)
                     for port_name, _ in measure_port]
-- 
2.43.0


From dc01291c29b42398eac115d72e145d7479394420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 71/89] fix: sign of the magnetic field of ez-polarised and 3d
 solutions

---
 simphox/fdfd.py | 14 +++++++-------
 simphox/mode.py |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index c01791e..8b5ae70 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -171,12 +171,12 @@ class FDFD(SimGrid):
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \times \\mathbf{e}.
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \times \\mathbf{e}.
 
         Returns:
             The h-field converted from the e-field.
         """
-        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
@@ -186,7 +186,7 @@ class FDFD(SimGrid):
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            -i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
+            i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
 
         Returns:
             The e-field converted from the h-field.
@@ -220,7 +220,7 @@ class FDFD(SimGrid):
                 e = solver_fn(self.mat, b) if solver_fn else spsolve_pardiso(self.mat, b)
             e = self.reshape(e)
             curl_e = curl_fn(self.diff_fn(of_h=False))
-            h = curl_e(e) / (1j * self.k0)
+            h = curl_e(e) / (-1j * self.k0)
             return np.array((e, h))
         else:  # assume only the z component
             if not src.size == self.n:
@@ -238,7 +238,7 @@ class FDFD(SimGrid):
             else:
                 e = field
                 o = np.zeros_like(e[2])
-                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (1j * self.k0)])
+                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (-1j * self.k0)])
 
     def scpml(self, ax: int) -> Tuple[np.ndarray, np.ndarray]:
         exp_scale, log_reflection, pml_eps = self.pml_params
@@ -388,7 +388,7 @@ class FDFD(SimGrid):
                     ez = spsolve(mat_entries, k0 * src, mat_indices)
                     ez = ez.reshape(shape3)
                     e = jnp.stack((o, o, ez))
-                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (1j * k0)
+                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (-1j * k0)
                     return jnp.stack((e, h))
         else:
             # iterative 3d FDFD (simpler than 2D code-wise, but takes way more memory and time)
@@ -403,7 +403,7 @@ class FDFD(SimGrid):
                 eps = yee_avg_jax(transform_fn(rho))
                 e, _ = bicgstab(op(eps), k0 * src.reshape(field_shape))
                 e = jnp.stack([split_v.reshape(shape3) for split_v in jnp.split(e, 3)])
-                h = curl_e(e) / (1j * k0)
+                h = curl_e(e) / (-1j * k0)
                 return jnp.stack((e, h))
 
         return solve
diff --git a/simphox/mode.py b/simphox/mode.py
index e536881..3ff1ffa 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -129,13 +129,13 @@ class ModeSolver(YeeGrid):
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
 
         .. math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
 
         Returns:
             The h-field converted from the e-field.
 
         """
-        return self.curl_fn(beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
@@ -145,7 +145,7 @@ class ModeSolver(YeeGrid):
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
 
         .. math::
-            -i \\omega \\epsilon \\mathbf{e} = \\nabla \\times \\mathbf{h}.
+            i \\omega \\epsilon \\mathbf{e} = \\nabla \\times \\mathbf{h}.
 
         Returns:
             Function to convert h-field to e-field.
@@ -320,7 +320,7 @@ class ModeLibrary:
             else:
                 mode = np.hstack((1j * self.betas[mode_idx] * mode, self.o,
                                   -(mode - np.roll(mode, 1, axis=0)) / self.solver.cells[0])) / (
-                    1j * self.solver.k0)
+                    -1j * self.solver.k0)
         return self.solver.reshape(mode)
 
     def e(self, mode_idx: int = 0, tm_2d: bool = True) -> np.ndarray:
-- 
2.43.0


From c33f0dfbd92946d17ef047bc6f8260df842a46e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 72/89] fix: sources of 3d ports place the electric field of
 the mode

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 3ff1ffa..facdb96 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -518,7 +518,7 @@ class ModeLibrary:
                 np.asarray((0, 1, 2), dtype=int)
             ][place_axis]
             x = np.zeros((3, *grid.shape), dtype=np.complex128)
-            x[(slice(None),) + region] = self.h(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
+            x[(slice(None),) + region] = self.e(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
         else:
             x = np.zeros(grid.shape, dtype=np.complex128)
             x[region[:2]] = self.modes[mode_idx]
-- 
2.43.0


From 8063792fdcdc37c046e0e03bf4ec665ff376a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 73/89] fix: let the absorbing layers of both fields start at
 the same place in FDTD

---
 simphox/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 56642fb..afb7bc5 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -217,9 +217,9 @@ def yee_avg_jax(params: jnp.ndarray) -> jnp.ndarray:
 def pml_sigma(pos: np.ndarray, thickness: int, exp_scale: float, log_reflection: float, absorption_corr: float):
     d = np.vstack(((pos[:-1] + pos[1:]) / 2, pos[:-1])).T
     d_pml = np.vstack((
-        (d[thickness] - d[:thickness]) / (d[thickness] - pos[0]),
+        (pos[thickness] - d[:thickness]) / (pos[thickness] - pos[0]),
         np.zeros_like(d[thickness:-thickness]),
-        (d[-thickness:] - d[-thickness]) / (pos[-1] - d[-thickness])
+        (d[-thickness:] - pos[-thickness - 1]) / (pos[-1] - pos[-thickness - 1])
     )).T
     return (exp_scale + 1) * (d_pml ** exp_scale) * log_reflection / (2 * absorption_corr)
 
-- 
2.43.0


From bc57e8864cbf6bc5ffa3405702f92a4e23001203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 74/89] fix: metrics of problems with different or without
 metric functions

---
 simphox/opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 04e15a9..32be999 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -211,7 +211,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
                     history[f'metric/{metric_name}/{idx}'].append(metric_value)
-                all_metric_names = list(metrics)
+                all_metric_names += [name for name in metrics if name not in all_metric_names]
                 for title in (viz.metrics_pipes[sop.sim.name] if viz is not None else []):
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
@@ -240,6 +240,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
     metrics = xarray.DataArray(
         data=np.array([[history[f'metric/{metric_name}/{idx}']
+                        or [np.nan] * len(range(0, num_iters, metric_interval))  # not a metric of this problem
                         for metric_name in all_metric_names] for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-- 
2.43.0


From fef94aebc0755affec6afebdb7ceeb2fe0ef9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 75/89] fix: record the permittivity of every problem when
 problems share a simulation

---
 simphox/opt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 32be999..1489625 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -180,10 +180,14 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
 
     def _update_eps(state):
         rho = get_params(state)
+        all_eps = []
         for op in opt_problems:
             if op.sim is not None:
                 eps = op.transform_fn(rho) if op.transform_fn is not None else rho
                 op.sim.eps = np.array(jax.lax.stop_gradient(eps))
+                if op.source is not None:
+                    all_eps.append(op.sim.eps)
+        return all_eps
 
     step = jax.jit(step_, backend=backend)
 
@@ -194,7 +198,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     all_metric_names = []
 
     for i in iterator:
-        _update_eps(opt_state)  # the permittivity that yields the cost, sparams and fields of this iteration
+        all_eps = _update_eps(opt_state)  # the permittivity that yields the cost, sparams and fields of this iteration
         v, opt_state, data = step(i, opt_state)
         sim_data = [aux for aux, s in zip(data, solve_fn) if s is not None]
         for idx, (sop, sparams_fields) in enumerate(zip(sim_opt_problems, sim_data)):
@@ -226,7 +230,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                         )
                     )
             if eps_interval > 0 and i % eps_interval == 0:
-                history[f'eps/{idx}'].append((i, sop.sim.eps))
+                history[f'eps/{idx}'].append((i, all_eps[idx]))
             if field_interval > 0 and i % field_interval == 0:
                 history[f'field/{idx}'].append((i, hz.T))
         if pbar is not None:
-- 
2.43.0


From fe559e028b58be43181a00aaefacb5bd8b1fb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 76/89] fix: optimise numpy parameters with transforms that
 need jax arrays

---
 simphox/opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 1489625..5311778 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -151,7 +151,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     """
 
     opt_init, opt_update, get_params = adam(step_size=step_size)
-    opt_state = opt_init(init_params)
+    opt_state = opt_init(jax.tree_util.tree_map(jnp.asarray, init_params))  # transforms expect jax arrays
 
     # define opt_problems
     opt_problems = [opt_problem] if isinstance(opt_problem, OptProblem) else opt_problem
-- 
2.43.0


From 96d391ed4e00e8ca5374668a196180d4a64a7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 77/89] fix: meshes with columns that have no nodes

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 35f7e2c..844cc5a 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -167,7 +167,7 @@ class ForwardMesh:
         for node in self.nodes:
             nodes_by_column[node.column].append(node)
         return [ForwardMesh(nodes_by_column[column], phase_style=self.phase_style)
-                for column in range(self.num_columns)]
+                for column in sorted(nodes_by_column)]
 
     def matrix(self, params: Optional[np.ndarray] = None, back: bool = False):
         return self.matrix_fn(back=back)(self.params if params is None else params)
-- 
2.43.0


From 68d122a1379fbc64aa5dcbe16cb48eb24d8c2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 78/89] fix: keep the rib of a pattern without a substrate

---
 simphox/fdfd.py | 3 ++-
 simphox/fdtd.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 8b5ae70..bc354de 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -295,7 +295,8 @@ class FDFD(SimGrid):
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, wavelength=wavelength, eps=bg_eps, pml=pml, name=name)
         grid.fill(sub_z + rib_t, core_eps)
-        grid.fill(sub_z, clad_eps)
+        if sub_z > 0 or rib_t <= 0:  # without a substrate, the fill would replace the rib
+            grid.fill(sub_z, clad_eps)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index e008e15..f0a34fb 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -85,7 +85,8 @@ class FDTD(SimGrid):
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, eps=bg_eps, pml=pml, name=name)
         grid.fill(sub_z + rib_t, core_eps)
-        grid.fill(sub_z, clad_eps)
+        if sub_z > 0 or rib_t <= 0:  # without a substrate, the fill would replace the rib
+            grid.fill(sub_z, clad_eps)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
-- 
2.43.0


From 3b0d9f689987d071b3cd78d5168ae11b2a90438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 79/89] fix: label the S-parameters of a component with the
 requested ports

---
 simphox/circuit/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/component.py b/simphox/circuit/component.py
index e410607..b6d60f8 100644
--- a/simphox/circuit/component.py
+++ b/simphox/circuit/component.py
@@ -64,6 +64,10 @@ class Component:
 
         """
         sparams = []
+        ports = list(pattern.port)
+        in_ports = ports if in_ports is None else list(in_ports)
+        out_ports = ports if out_ports is None else list(out_ports)
+        out_idx = jnp.array([ports.index(port) for port in out_ports])
 
         iterator = wavelengths if pbar is None else pbar(wavelengths)
         for wl in iterator:
@@ -84,9 +88,9 @@ class Component:
                 name=f'{name}_{wl}um'
             )
             sparams_wl = []
-            for port in fdfd.port:
+            for port in in_ports:
                 s, _ = fdfd.get_sim_sparams_fn(port, profile_size_factor=profile_size_factor)(fdfd.eps)
-                sparams_wl.append(s)
+                sparams_wl.append(s[out_idx])
             sparams.append(sparams_wl)
 
         model = xr.DataArray(
-- 
2.43.0


From f1567df852f5ab4911c153a318b972009b1fb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 80/89] fix: number of axes of a pattern simulated in two
 dimensions with a thickness

---
 simphox/fdfd.py | 2 +-
 simphox/fdtd.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index bc354de..1a5d30c 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -291,7 +291,7 @@ class FDFD(SimGrid):
         x = b[0] + 2 * boundary[0]
         y = b[1] + 2 * boundary[1]
         component_zmin = sub_z if component_zmin is None else component_zmin
-        spacing = spacing * np.ones(2 + (component_t > 0)) if isinstance(spacing, float) else np.asarray(spacing)
+        spacing = spacing * np.ones(2 + (height > 0)) if isinstance(spacing, float) else np.asarray(spacing)
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, wavelength=wavelength, eps=bg_eps, pml=pml, name=name)
         grid.fill(sub_z + rib_t, core_eps)
diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index f0a34fb..6eae05f 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -81,7 +81,7 @@ class FDTD(SimGrid):
         x = b[0] + 2 * boundary[0]
         y = b[1] + 2 * boundary[1]
         component_zmin = sub_z if component_zmin is None else component_zmin
-        spacing = spacing * np.ones(2 + (component_t > 0)) if isinstance(spacing, float) else np.asarray(spacing)
+        spacing = spacing * np.ones(2 + (height > 0)) if isinstance(spacing, float) else np.asarray(spacing)
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, eps=bg_eps, pml=pml, name=name)
         grid.fill(sub_z + rib_t, core_eps)
-- 
2.43.0


From 16eda28dd18fe3aa1fe63d3e201ec3944d243c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 81/89] fix: plots along one axis without a spacing

---
 simphox/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/viz.py b/simphox/viz.py
index 9e9eb6d..bb6396a 100644
--- a/simphox/viz.py
+++ b/simphox/viz.py
@@ -138,7 +138,7 @@ def plot_eps_1d(ax, eps: Optional[np.ndarray], spacing: Optional[float] = None,
         axis_label_rotation: Rotate the axis label in case a plot is made with shared axes.
 
     """
-    x = np.arange(eps.shape[0]) * spacing
+    x = np.arange(eps.shape[0]) * (spacing if spacing else 1)
     if spacing:
         ax.set_xlabel(rf'$x$ ({units})')
         ax.set_ylabel(r'Relative permittivity ($\epsilon$)', color=color,
@@ -161,7 +161,7 @@ def plot_field_1d(ax, field: np.ndarray, field_name: str, eps: Optional[np.ndarr
         units: Units for plotting (default microns)
 
     """
-    x = np.arange(field.shape[0]) * spacing
+    x = np.arange(field.shape[0]) * (spacing if spacing else 1)
     if spacing:  # in microns!
         ax.set_xlabel(rf'$x$ ({units})')
         ax.set_ylabel(rf'{field_name}', color=color)
-- 
2.43.0


From 826a2decc487fe6037aca910c3b9df4677450410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 82/89] fix: plot the field of modes of one-dimensional cross
 sections

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index facdb96..ff63d55 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -473,7 +473,7 @@ class ModeLibrary:
             polarization = "TE" if np.argmax((self.te_ratio(idx), 1 - self.te_ratio(idx))) > 0 else "TM"
             ax.text(x=0.05, y=0.9, s=rf'{polarization}[{ratio:.2f}]', color='black', transform=ax.transAxes)
         else:
-            plot_field_1d(ax, field[axis].real.squeeze(), rf'Field({label})', self.eps, spacing=self.solver.spacing[0])
+            plot_field_1d(ax, field.real.squeeze(), rf'Field({label})', self.eps, spacing=self.solver.spacing[0])
 
     def phase(self, length: float = 1, mode_idx: int = 0):
         """Measure the phase delay propagated over a length
-- 
2.43.0


From a3aebc17d08c291bcd0c22744abc4f7a2256c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 83/89] fix: find the eigenvalues of a range with the first
 solve and for real matrices

---
 simphox/mkl.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 601ef5b..c84b763 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -252,10 +252,9 @@ class Feast:
         self.fpm[13] = int(one_contour)
         self.fpm[26] = int(check_input)
         self.fpm[27] = int(check_pos_definite)
-        self.fpm[63] = 1    # Enable iparm settings
-        # from pyMKL
-        self.iparm[1] = 3   # Parallel nested dissection for reordering
-        self.iparm[23] = 1  # Parallel factorization
+        # Use the iparm settings of Feast: they depend on the type of the matrix, and Feast replaces settings with
+        # iparm[0] == 0 by other ones in the middle of its first call (which then fails or corrupts memory).
+        self.fpm[63] = 0
 
     def feast(self, mat: sp.csr_matrix, m0: int, erange: Tuple[float, float], symmetric: bool = True):
         dtype = mat.dtype
-- 
2.43.0


From d4a9fdd70bb7e9110f231f47d906a1015ce8fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 84/89] fix: split ratios of weak vectors do not depend on the
 scale of the vector

---
 simphox/circuit/coupling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 029ab2e..5e9535e 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -203,7 +203,8 @@ def direct_transmissivity(top: np.ndarray, bottom: np.ndarray):
         The transmissivities
 
     """
-    return np.abs(top) ** 2 / (np.abs(top) ** 2 + np.abs(bottom) ** 2 + np.spacing(1))
+    total = np.abs(top) ** 2 + np.abs(bottom) ** 2
+    return np.abs(top) ** 2 / np.where(total == 0, 1, total)  # zero if both elements vanish, whatever their scale
 
 
 def transmissivity_to_phase(s: Union[float, np.ndarray], mzi_terms: np.ndarray = None):
-- 
2.43.0


From 74b654027d52c041281e5c5d4f1f5508962fb4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:27 +0000
Subject: [PATCH 85/89] fix: orthonormal completion of vectors that start with
 zeros

---
 simphox/circuit/matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index da46d1e..c949b08 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -107,6 +107,7 @@ def tree_cascade(u: np.ndarray, phase_style: str = PhaseStyle.TOP, error_mean_st
 def dirichlet_matrix(v, embed_dim=None):
     phases = np.exp(-1j * np.angle(v))
     y = np.abs(v) ** 2
+    y[0] = max(y[0], 1e-150 * y.sum())  # leading zeros of v leave the first axis to the first non-zero element
     yop = np.sqrt(np.outer(y, y))
     ysum = np.cumsum(y)
     yden = 1 / np.sqrt(ysum[:-1] * ysum[1:])
-- 
2.43.0


From 4f0ec1982fb4d701ae03fbd2d2a3a492a4815ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 86/89] fix: sparse solves of systems of any scale

---
 simphox/mkl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index c84b763..3873ab0 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -128,7 +128,11 @@ class Pardiso:
 
         self.mat: sp.csr_matrix = mat
 
-        self.a = np.ascontiguousarray(self.mat.data)
+        # zero pivots are not told apart from small ones for all scales, scaling by a power of 2 does not change the digits
+        largest = np.abs(self.mat.data).max(initial=0)
+        exponent = np.frexp(largest)[1] if np.isfinite(largest) else 0
+        self.scale = 2.0 ** -np.clip(exponent, -1000, 1000)
+        self.a = np.ascontiguousarray(self.mat.data * self.scale)
         self.a_ = self.a.ctypes.data_as(self.ctypes_dtype)
 
         self.ia = np.ascontiguousarray(self.mat.indptr, dtype=np.int32)
@@ -232,6 +236,7 @@ class Pardiso:
             raise RuntimeError(f"Pardiso returned an error with code {err_c.value}. "
                                f"Check error codes in manual: https://pardiso-project.org/manual/manual.pdf")
 
+        x *= self.scale
         return x.reshape(shape, order='f') if nrhs > 1 else x
 
 
-- 
2.43.0


From 7ed7e1c539ab8c6cc472de851903de48b2e66aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:24 +0000
Subject: [PATCH 87/89] fix: independent random errors of the phases of a node

---
 simphox/circuit/forward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 844cc5a..4fd0bd4 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -534,9 +534,10 @@ class ForwardMesh:
             The phases
 
         """
-        errors = error if constant else error * np.random.randn(self.thetas.size)
+        t_errors = error if constant else error * np.random.randn(self.thetas.size)
+        p_errors = error if constant else error * np.random.randn(self.phis.size)
         g_errors = error if constant else error * np.random.randn(self.gammas.size)
-        return self.thetas + errors, self.phis + errors, self.gammas + g_errors * gamma_error
+        return self.thetas + t_errors, self.phis + p_errors, self.gammas + g_errors * gamma_error
 
     def phase_shift_localize(self, prop_powers: np.ndarray, use_jax: bool = True):
         xp = jnp if use_jax else np
-- 
2.43.0


From 873eaaa899ec6591811ce8487b64d82611812442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:52 +0000
Subject: [PATCH 88/89] fix: gaussian_fn refuses to make a pulse without any
 width

The check compared the pulse width twice, and never refused anything: without a width of either kind the function was not a number.
---
 simphox/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index afb7bc5..3aa0fb8 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -349,7 +349,7 @@ def gaussian_fn(wavelength: float, pulse_width: float = 0, fwidth: float = np.in
     Returns:
 
     """
-    if pulse_width <= 0 and pulse_width == np.inf:
+    if pulse_width <= 0 and fwidth == np.inf:
         raise ValueError("Bandwidth must be positive or fwidth must be noninfinite.")
 
     fwidth = 2 * np.pi / pulse_width if pulse_width > 0 else fwidth
-- 
2.43.0


From deb82a7920534f66cc8ab7c0eb6eaf9c58c8f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:47 +0000
Subject: [PATCH 89/89] fix: FDFD.from_simgrid gives the simulation its own
 ports

---
 simphox/fdfd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 1a5d30c..31bda94 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -121,7 +121,7 @@ class FDFD(SimGrid):
             pml_params=simgrid.pml_params[:3],
             name=simgrid.name
         )
-        fdfd.port = simgrid.port
+        fdfd.port = dict(simgrid.port)
         return fdfd
 
     @property
-- 
2.43.0

