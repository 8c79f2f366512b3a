From 8510d92fef354cac0f2dbab725c2d9e0de8f7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 01/24] fix: keep gathered projectors on the local device in
 distributed CPU runs

Tensor.to(rank) with an integer names an accelerator device, so every
gathered tensor raised on a CPU-only (gloo) run.
---
 acetn/renormalization/directional_mover.py | 16 ++++++++--------
 acetn/utils/distributed.py                 |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..aac272f 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -206,10 +206,10 @@ class DirectionalMover:
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+                proj1l[yi + y_shift//ws] = proj1_all[yi]
+                proj2l[yi + y_shift//ws] = proj2_all[yi]
+                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2]
+                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -251,10 +251,10 @@ class DirectionalMover:
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+                proj1u[xi + x_shift//ws] = proj1_all[xi]
+                proj2u[xi + x_shift//ws] = proj2_all[xi]
+                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2]
+                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..8665cfc 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -101,7 +101,7 @@ def all_gather_tensor(tensor, rank, ws):
     # gather tensors
     tensor_all = []
     for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
+        tensor_buf_shape = tensor_all_shapes[i].tolist()
         tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
         tensor_all.append(tensor_buf)
     dist.all_gather(tensor_all, tensor)
-- 
2.43.0


From 192f833f3faa528714e63250108e27cc952c781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 02/24] fix: gather unevenly shaped projectors on backends
 without uneven all_gather

---
 acetn/utils/distributed.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 8665cfc..0ce5293 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -2,6 +2,7 @@ import torch
 import torch.distributed as dist
 import os
 import builtins
+from math import prod
 from tqdm import tqdm
 from torch.distributed.elastic.multiprocessing.errors import record
 
@@ -96,13 +97,15 @@ def all_gather_tensor(tensor, rank, ws):
     """
     # gather shapes
     tensor_shape = torch.tensor(list(tensor.shape), dtype=int, device=tensor.device)
-    tensor_all_shapes = [torch.empty(4, dtype=int, device=tensor.device) for _ in range(ws)]
+    tensor_all_shapes = [torch.empty_like(tensor_shape) for _ in range(ws)]
     dist.all_gather(tensor_all_shapes, tensor_shape)
-    # gather tensors
-    tensor_all = []
-    for i in range(ws):
-        tensor_buf_shape = tensor_all_shapes[i].tolist()
-        tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
-        tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
-    return tensor_all
\ No newline at end of file
+    tensor_all_shapes = [shape.tolist() for shape in tensor_all_shapes]
+    # gather tensors, flattened and padded to a common size since the shapes
+    # may differ between ranks and not all backends support uneven gathers
+    buf_size = max(prod(shape) for shape in tensor_all_shapes)
+    tensor_buf = torch.zeros(buf_size, dtype=tensor.dtype, device=tensor.device)
+    tensor_buf[:tensor.numel()] = tensor.reshape(-1)
+    tensor_all_bufs = [torch.empty_like(tensor_buf) for _ in range(ws)]
+    dist.all_gather(tensor_all_bufs, tensor_buf)
+    return [buf[:prod(shape)].reshape(shape)
+            for buf, shape in zip(tensor_all_bufs, tensor_all_shapes)]
-- 
2.43.0


From fb077d0da98192bf3714c9de6fd4e6881f42060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 03/24] fix: distribute boundary-move work over any number of
 ranks

---
 acetn/renormalization/directional_mover.py | 58 +++++++++++-----------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index aac272f..2bfa863 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -192,24 +192,25 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
-            if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+        half_ws = ws//2
+        for y_shift in range(0, ipeps.ny, half_ws):
+            # ranks without an index left to work on repeat the last one, so
+            # that every rank takes part in the gather
+            if rank < half_ws:
+                yi = min(rank + y_shift, ipeps.ny - 1)
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                yi = min(rank - half_ws + y_shift, ipeps.ny - 1)
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi]
-                proj2l[yi + y_shift//ws] = proj2_all[yi]
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2]
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2]
+            for yi in range(min(half_ws, ipeps.ny - y_shift)):
+                proj1l[yi + y_shift] = proj1_all[yi]
+                proj2l[yi + y_shift] = proj2_all[yi]
+                proj1r[yi + y_shift] = proj1_all[yi + half_ws]
+                proj2r[yi + y_shift] = proj2_all[yi + half_ws]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -237,24 +238,25 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
-            if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+        half_ws = ws//2
+        for x_shift in range(0, ipeps.nx, half_ws):
+            # ranks without an index left to work on repeat the last one, so
+            # that every rank takes part in the gather
+            if rank < half_ws:
+                xi = min(rank + x_shift, ipeps.nx - 1)
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                xi = min(rank - half_ws + x_shift, ipeps.nx - 1)
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi]
-                proj2u[xi + x_shift//ws] = proj2_all[xi]
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2]
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2]
+            for xi in range(min(half_ws, ipeps.nx - x_shift)):
+                proj1u[xi + x_shift] = proj1_all[xi]
+                proj2u[xi + x_shift] = proj2_all[xi]
+                proj1d[xi + x_shift] = proj1_all[xi + half_ws]
+                proj2d[xi + x_shift] = proj2_all[xi + half_ws]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
-- 
2.43.0


From c79ff81e01207501a8e0450daa08df997f894340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 04/24] fix: start all ranks of a distributed run from the same
 random state

---
 acetn/ipeps/ipeps.py       | 14 ++++++++++++++
 acetn/utils/distributed.py | 16 ++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..f516654 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -55,6 +55,20 @@ class Ipeps(TensorNetwork):
         self.rank, self.world_size, self.device, self.is_distributed \
             = setup_distributed(self.device)
 
+    def initialize_site_tensors(self, site_state_map):
+        """
+        Initialize the tensors for the entire tensor network.
+
+        The initial state is random, so in distributed execution every rank takes over
+        the site tensors of rank 0.
+        """
+        super().initialize_site_tensors(site_state_map)
+        if self.is_distributed:
+            for site in self.site_list:
+                self[site]['A'] = broadcast_tensor(self[site]['A'], src=0)
+                self[site].initialize_corner_tensors()
+                self[site].initialize_edge_tensors()
+
     def set_chi(self, chi):
         """
         Set the boundary bond dimension chi.
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 0ce5293..6257f65 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -83,6 +83,22 @@ def finalize_distributed():
         dist.destroy_process_group()
 
 
+def broadcast_tensor(tensor, src=0):
+    """
+    Broadcasts a tensor from one worker to all the others.
+
+    Args:
+        tensor (torch.Tensor): The tensor to broadcast, with the same shape on every rank.
+        src (int): The rank whose values are sent.
+
+    Returns:
+        torch.Tensor: The values held by the source rank.
+    """
+    tensor = tensor.clone(memory_format=torch.contiguous_format)
+    dist.broadcast(tensor, src=src)
+    return tensor
+
+
 def all_gather_tensor(tensor, rank, ws):
     """
     Gathers tensors from all workers in a distributed setting.
-- 
2.43.0


From 64afb4ba3c4f4e7cc5bd9c1bbbc96a4c314d8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 05/24] fix: keep the process group alive while any tensor
 network uses it

---
 acetn/ipeps/ipeps.py       |  2 +-
 acetn/utils/distributed.py | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index f516654..ffd644f 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -44,7 +44,7 @@ class Ipeps(TensorNetwork):
         """
         Finalize the distributed environment upon object deletion.
         """
-        if self.is_distributed:
+        if getattr(self, "is_distributed", False):
             finalize_distributed()
 
     def setup_distributed(self):
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 6257f65..2e758b8 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -6,6 +6,11 @@ from math import prod
 from tqdm import tqdm
 from torch.distributed.elastic.multiprocessing.errors import record
 
+# process group bookkeeping: whether it was initialized here, and by how many
+# tensor networks it is in use
+_owns_process_group = False
+_process_group_users = 0
+
 
 @record
 def setup_distributed(device):
@@ -55,6 +60,7 @@ def setup_process_group(rank, world_size, device):
 
     Sets the backend and assigns a device to each rank.
     """
+    global _owns_process_group, _process_group_users
     if world_size > 1 and not dist.is_initialized():
         backend = "nccl" if torch.cuda.is_available() else "gloo"
         dist.init_process_group(backend=backend, rank=rank, world_size=world_size)
@@ -63,6 +69,8 @@ def setup_process_group(rank, world_size, device):
         if device != torch.device("cpu"):
             device = rank
             torch.cuda.set_device(device)
+        _owns_process_group = True
+    _process_group_users += 1
     return device
 
 
@@ -78,7 +86,15 @@ def setup_distributed_print(rank):
 def finalize_distributed():
     """
     Finalizes the distributed environment and cleans up resources.
+
+    Called once by each tensor network set up for distributed execution. The process group
+    is destroyed with the last of them, unless it was initialized elsewhere.
     """
+    global _owns_process_group, _process_group_users
+    _process_group_users = max(0, _process_group_users - 1)
+    if _process_group_users > 0 or not _owns_process_group:
+        return
+    _owns_process_group = False
     if dist.is_initialized():
         dist.destroy_process_group()
 
-- 
2.43.0


From 29e17a74aa9c5266d404eeb8b4d790afdad63c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 06/24] fix: give every tensor network its own site tensors

---
 acetn/ipeps/tensor_network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..6ea2190 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,6 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -28,6 +27,7 @@ class TensorNetwork:
         self.dtype = dtype
         self.device = device
 
+        self._tensor_network = {}
         self.setup_tensor_network(tensor_network)
 
     def __getitem__(self, site):
@@ -106,7 +106,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From 6f0115503833d1f33f8431f1a4f25db945c4ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 07/24] fix: give every Gate its own gates

---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..7e0cc46 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,6 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -22,6 +21,7 @@ class Gate:
         site_list : list, optional
             A list of sites for which one-site gates will be created (default is None).
         """
+        self._gate = {}
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
-- 
2.43.0


From 524381d601bb4572c31943447a98c996c1674e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 08/24] fix: evolve the state an Ipeps was created from instead
 of discarding it

---
 acetn/ipeps/ipeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index ffd644f..83f4686 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,7 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
-- 
2.43.0


From 6b3349255855fab1945504b09db9a0bf2c306f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 09/24] fix: keep the dimensions and model parameters of a
 network to itself

---
 acetn/ipeps/ipeps.py          | 2 +-
 acetn/ipeps/ipeps_config.py   | 8 ++++++++
 acetn/ipeps/tensor_network.py | 6 ++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 83f4686..9a2ac5f 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -91,7 +91,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = dict(params or {})
 
     def set_model_params(self, **kwargs):
         """
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..d8deb27 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -13,6 +13,10 @@ class TNConfig:
     dims: Dict[str, int] = field(
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
+    def __post_init__(self):
+        # updated by set_chi, so not shared with the caller's dictionary
+        self.dims = dict(self.dims)
+
 @dataclass
 class CTMRGConfig:
     steps: int = 40
@@ -44,6 +48,10 @@ class ModelConfig:
     name: str = None
     params: Dict[str, int] = None
 
+    def __post_init__(self):
+        # updated by set_model_params, so not shared with the caller's dictionary
+        self.params = dict(self.params or {})
+
 @dataclass
 class IpepsConfig:
     """Configuration class for iPEPS setup."""
diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 6ea2190..b2bb1a8 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,4 +1,5 @@
 import torch
+from dataclasses import replace
 from .site_tensor import SiteTensor
 from .bond import Bond
 
@@ -74,7 +75,7 @@ class TensorNetwork:
         Returns:
             TensorNetwork: A new `TensorNetwork` with identical contents and metadata.
         """
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=self.dtype, device=self.device)
+        return self.to()
 
     def to(self, dtype=None, device=None):
         """
@@ -89,7 +90,8 @@ class TensorNetwork:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=dtype, device=device)
+        # replace makes a new config with its own dims
+        return TensorNetwork(tensor_network=self, config=replace(self.tn_config), dtype=dtype, device=device)
 
     def save(self, filename='ipeps.pt'):
         """
-- 
2.43.0


From 6b96219cd4feaaf7791c6f323faf949114bf7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 10/24] fix: keep a custom model set on one Ipeps from
 replacing that of another

---
 acetn/ipeps/ipeps.py         | 1 +
 acetn/ipeps/ipeps_config.py  | 1 +
 acetn/model/model_factory.py | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 9a2ac5f..0d24bc8 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -90,6 +90,7 @@ class Ipeps(TensorNetwork):
         """
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
+        self.config.model.custom_models[name] = model_cls
         self.config.model.name = name
         self.config.model.params = dict(params or {})
 
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index d8deb27..688315a 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -47,6 +47,7 @@ class ModelConfig:
     dim: int
     name: str = None
     params: Dict[str, int] = None
+    custom_models: Dict[str, type] = field(default_factory=dict)
 
     def __post_init__(self):
         # updated by set_model_params, so not shared with the caller's dictionary
diff --git a/acetn/model/model_factory.py b/acetn/model/model_factory.py
index 1f6c703..adeecc8 100644
--- a/acetn/model/model_factory.py
+++ b/acetn/model/model_factory.py
@@ -64,6 +64,8 @@ class ModelFactory:
         """
         if config.name is None:
             raise ValueError("Model has not been set.")
+        elif config.name in config.custom_models:
+            return config.custom_models[config.name](config)
         elif config.name not in self._models:
             raise KeyError(f"Model name: '{config.name}' is not registered.")
         else:
-- 
2.43.0


From 2aa82cc9f43eb7faba8505763bf2388147339ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 11/24] fix: build gates from every documented form of
 Hamiltonian without modifying it

---
 acetn/evolution/gate.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 7e0cc46..784f3dc 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -77,7 +77,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(self.operator_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -95,17 +95,24 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = self.operator_matrix(model.two_site_hamiltonian(bond)).reshape(pD**2,pD**2)
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(self.operator_matrix(site_ham_1), id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, self.operator_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
+    @staticmethod
+    def operator_matrix(op):
+        """
+        Returns the matrix of an operator given as a Pauli matrix or as a plain tensor.
+        """
+        return op.mat if hasattr(op, 'mat') else op
+
     def calculate_gate(self, ham, dtau):
         """
         Calculates the gate from the Hamiltonian using the matrix exponential and time step.
-- 
2.43.0


From 8629244bfa5fae4fe858582935946bf73c1a8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 12/24] fix: never leave an incomplete checkpoint behind when
 saving

---
 acetn/ipeps/tensor_network.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index b2bb1a8..37fc878 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,4 +1,7 @@
+import os
+import uuid
 import torch
+from contextlib import suppress
 from dataclasses import replace
 from .site_tensor import SiteTensor
 from .bond import Bond
@@ -100,14 +103,26 @@ class TensorNetwork:
         Args:
             filename (str): The file name for the saved file.
 
-        Saves the tensor network and its tensors to a PyTorch binary file.
+        Saves the tensor network and its tensors to a PyTorch binary file. An existing file
+        is replaced only once the new one is complete.
         """
         tn_cpu = self.to(device="cpu")
         state_dict = {
             "tensor_network": tn_cpu,
             "tensors": tn_cpu._tensor_network,
         }
-        torch.save(state_dict, filename)
+        filename = os.path.realpath(filename)
+        tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(tmp_filename, "wb") as file:
+                torch.save(state_dict, file)
+                file.flush()
+                os.fsync(file.fileno())
+            os.replace(tmp_filename, filename)
+        except BaseException:
+            with suppress(OSError):
+                os.remove(tmp_filename)
+            raise
 
     def load(self, filename):
         """
-- 
2.43.0


From ea514428b966a5bd600c02394f6ed8192f80dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 13/24] fix: refuse to load a checkpoint of a different unit
 cell

---
 acetn/ipeps/tensor_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 37fc878..483b14a 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -133,8 +133,10 @@ class TensorNetwork:
         """
         state_dict = torch.load(filename, weights_only=False)
         tn_cpu = state_dict['tensors']
-        for site, site_tensor in tn_cpu.items():
-            self[site] = site_tensor.to(self.dtype, self.device)
+        if set(tn_cpu) != set(self.site_list):
+            raise ValueError(f"Sites in {filename} do not match those of the tensor network.")
+        self._tensor_network = {site: site_tensor.to(self.dtype, self.device)
+                                for site, site_tensor in tn_cpu.items()}
         self.site_states_initialized = True
 
     def setup_tensor_network(self, tensor_network):
-- 
2.43.0


From 19200155a59cd415e5f94f0de20f2b7bef4964a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 14/24] fix: let interrupts and memory errors through the ALS
 Cholesky fallback

---
 acetn/evolution/als_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..f0ba080 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -222,7 +222,7 @@ class ALSSolver:
                     L = cholesky(R)
                     Y = solve_triangular(L, S, upper=False)
                     ar = solve_triangular(L.mH, Y, upper=True)
-                except:
+                except torch.linalg.LinAlgError:
                     ar = torch.linalg.solve(R, S)
             case "pinv":
                 R_inv = pinv(R, hermitian=True, rcond=self.epsilon)
@@ -265,6 +265,6 @@ class ALSSolver:
             L = cholesky(R)
             Y = solve_triangular(L, S, upper=False)
             ar = solve_triangular(L.mH, Y, upper=True)
-        except:
+        except torch.linalg.LinAlgError:
             ar = torch.linalg.solve(R, S)
         return ar
-- 
2.43.0


From 3699b4092a64f4b14bb4e7ac412258823dfc7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 15/24] fix: replace the boundary tensors of a row or column
 together

---
 acetn/renormalization/directional_mover.py | 76 ++++++++++++++++++----
 1 file changed, 65 insertions(+), 11 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 2bfa863..4933c99 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -32,12 +32,14 @@ class DirectionalMover:
         proj2 = {}
         for yi in range(ipeps.ny):
             proj1[yi], proj2[yi] = self.calculate_left_projectors(ipeps, xi, yi)
+        updates = []
         for yi in range(ipeps.ny):
             xj = (xi+1) % ipeps.nx
             yj = (yi+1) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, yi, yj, k=0)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1, proj2, s1, yi, yj, k=0)))
+        self.update_boundary(ipeps, updates, k=0)
 
     def up_move(self, ipeps, yi):
         """
@@ -51,12 +53,14 @@ class DirectionalMover:
         proj2 = {}
         for xi in range(ipeps.nx):
             proj1[xi], proj2[xi] = self.calculate_up_projectors(ipeps, xi, yi)
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
             yj = (yi-1+ipeps.ny) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, xi, xj, k=1)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1, proj2, s1, xi, xj, k=1)))
+        self.update_boundary(ipeps, updates, k=1)
 
     def right_move(self, ipeps, xi):
         """
@@ -70,12 +74,14 @@ class DirectionalMover:
         proj2 = {}
         for yi in range(ipeps.ny):
             proj1[yi], proj2[yi] = self.calculate_right_projectors(ipeps, xi, yi)
+        updates = []
         for yi in range(ipeps.ny):
             xj = (xi-1+ipeps.nx) % ipeps.nx
             yj = (yi-1+ipeps.ny) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, yi, yj, k=2)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1, proj2, s1, yi, yj, k=2)))
+        self.update_boundary(ipeps, updates, k=2)
 
     def down_move(self, ipeps, yi):
         """
@@ -89,12 +95,14 @@ class DirectionalMover:
         proj2 = {}
         for xi in range(ipeps.nx):
             proj1[xi], proj2[xi] = self.calculate_down_projectors(ipeps, xi, yi)
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi-1+ipeps.nx) % ipeps.nx
             yj = (yi+1) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, xi, xj, k=3)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1, proj2, s1, xi, xj, k=3)))
+        self.update_boundary(ipeps, updates, k=3)
 
     def calculate_left_projectors(self, ipeps, xi, yi):
         """
@@ -212,19 +220,23 @@ class DirectionalMover:
                 proj1r[yi + y_shift] = proj1_all[yi + half_ws]
                 proj2r[yi + y_shift] = proj2_all[yi + half_ws]
 
+        updates = []
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
             yj = (yi+1) % ipeps.ny
             s1 = (x1,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1l, proj2l, s1, s2, yi, yj, k=0)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1l, proj2l, s1, yi, yj, k=0)))
+        self.update_boundary(ipeps, updates, k=0)
 
+        updates = []
         for yi in range(ipeps.ny):
             xj = (x2-1+ipeps.nx) % ipeps.nx
             yj = (yi-1+ipeps.ny) % ipeps.ny
             s1 = (x2,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1r, proj2r, s1, s2, yi, yj, k=2)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1r, proj2r, s1, yi, yj, k=2)))
+        self.update_boundary(ipeps, updates, k=2)
 
     def up_down_move_dist(self, ipeps, y1, y2):
         """
@@ -258,19 +270,23 @@ class DirectionalMover:
                 proj1d[xi + x_shift] = proj1_all[xi + half_ws]
                 proj2d[xi + x_shift] = proj2_all[xi + half_ws]
 
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
             yj = (y1-1+ipeps.ny) % ipeps.ny
             s1 = (xi,y1)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1u, proj2u, s1, s2, xi, xj, k=1)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1u, proj2u, s1, xi, xj, k=1)))
+        self.update_boundary(ipeps, updates, k=1)
 
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi-1+ipeps.nx) % ipeps.nx
             yj = (y2+1) % ipeps.ny
             s1 = (xi,y2)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1d, proj2d, s1, s2, xi, xj, k=3)
+            updates.append((s2, self.calculate_boundary(ipeps, proj1d, proj2d, s1, xi, xj, k=3)))
+        self.update_boundary(ipeps, updates, k=3)
 
     def renormalize_boundary(self, ipeps, proj1, proj2, s1, s2, i, j, k):
         """
@@ -292,17 +308,55 @@ class DirectionalMover:
 
         This method modifies the `C` and `E` tensors at the boundary sites `s2` based on the projectors.
         """
+        boundary = self.calculate_boundary(ipeps, proj1, proj2, s1, i, j, k)
+        self.update_boundary(ipeps, [(s2, boundary)], k)
+
+    def calculate_boundary(self, ipeps, proj1, proj2, s1, i, j, k):
+        """
+        Calculates the renormalized boundary tensors at a site without changing the iPEPS.
+
+        Args:
+            ipeps (IPEPS): The iPEPS object containing the tensor network.
+            proj1 (dict): Projectors for the first boundary.
+            proj2 (dict): Projectors for the second boundary.
+            s1 (tuple): Coordinates of the first boundary tensor.
+            i (int): Index for the first boundary (used to index into proj1 and proj2).
+            j (int): Index for the second boundary (used to index into proj1 and proj2).
+            k (int): The boundary direction (0 for left, 1 for up, 2 for right, 3 for down).
+
+        Returns:
+            tuple: The two renormalized `C` tensors and the renormalized `E` tensor.
+        """
         ci = ipeps[s1]['C'][(3+k)%4]
         ei = ipeps[s1]['E'][(2+k)%4]
-        ipeps[s2]['C'][(3+k)%4] = self.renormalize_cj1(ci, ei, proj1[i])
+        cj1 = self.renormalize_cj1(ci, ei, proj1[i])
 
         ci = ipeps[s1]['C'][k]
         ei = ipeps[s1]['E'][k]
-        ipeps[s2]['C'][k] = self.renormalize_cj2(ci, ei, proj2[j])
+        cj2 = self.renormalize_cj2(ci, ei, proj2[j])
 
         ai = ipeps[s1].bond_permute(k)
         ei = ipeps[s1]['E'][(3+k)%4]
-        ipeps[s2]['E'][(3+k)%4] = self.renormalize_ej(ei, ai, proj2[i], proj1[j])
+        ej = self.renormalize_ej(ei, ai, proj2[i], proj1[j])
+        return cj1, cj2, ej
+
+    @staticmethod
+    def update_boundary(ipeps, updates, k):
+        """
+        Assigns renormalized boundary tensors of a whole row or column.
+
+        The tensors of a row or column have matching bond dimensions, so they are replaced
+        together once all of them have been calculated.
+
+        Args:
+            ipeps (IPEPS): The iPEPS object containing the tensor network.
+            updates (list): Pairs of a site and the tensors from `calculate_boundary`.
+            k (int): The boundary direction (0 for left, 1 for up, 2 for right, 3 for down).
+        """
+        for s2, (cj1, cj2, ej) in updates:
+            ipeps[s2]['C'][(3+k)%4] = cj1
+            ipeps[s2]['C'][k] = cj2
+            ipeps[s2]['E'][(3+k)%4] = ej
 
     @staticmethod
     def renormalize_cj1(ci, ei, proj):
-- 
2.43.0


From 6d58c7414ed4a2daa1ff4e5f604b9de92f20f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 16/24] fix: never leave a gate applied to only one of its two
 sites

---
 acetn/evolution/fast_full_update.py |  3 +--
 acetn/evolution/simple_update.py    |  3 +--
 acetn/evolution/tensor_update.py    | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/fast_full_update.py b/acetn/evolution/fast_full_update.py
index 05b061c..1896ebd 100644
--- a/acetn/evolution/fast_full_update.py
+++ b/acetn/evolution/fast_full_update.py
@@ -58,8 +58,7 @@ class FastFullUpdater(FullUpdater):
             a2 = a2.contiguous()
             dist.broadcast(a2, src=0)
 
-        self.ipeps[s1]['A'] = a1
-        self.ipeps[s2]['A'] = a2
+        self.set_bond_tensors(bond, a1, a2)
 
         if self.ipeps.is_distributed:
             ctm_time = self.absorb_bond_dist(bond)
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 068beb0..0e3ed41 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -69,8 +69,7 @@ class SimpleUpdater(TensorUpdater):
             a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
 
         self.lambda_tensors[bond] = lambda_tensor
-        self.ipeps[bond.s1]['A'] = a1
-        self.ipeps[bond.s2]['A'] = a2
+        self.set_bond_tensors(bond, a1, a2)
 
         upd_time = time.time() - start
         return 0, upd_time
diff --git a/acetn/evolution/tensor_update.py b/acetn/evolution/tensor_update.py
index 910ff8f..f1fa70f 100644
--- a/acetn/evolution/tensor_update.py
+++ b/acetn/evolution/tensor_update.py
@@ -37,6 +37,23 @@ class TensorUpdater(ABC):
             a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
         return a1,a2
 
+    def set_bond_tensors(self, bond, a1, a2):
+        """Replace the site tensors of a bond, either both of them or, if that
+        fails, neither.
+
+        Args:
+            bond: The updated bond.
+            a1, a2: Updated site tensors.
+        """
+        site_tensor = self.ipeps[bond.s1]
+        a1_old = site_tensor['A']
+        try:
+            site_tensor['A'] = a1
+            self.ipeps[bond.s2]['A'] = a2
+        except BaseException:
+            site_tensor._site_tensor = a1_old
+            raise
+
     def permute_bond_tensors(self, a1, a2, k):
         """Cyclically permute tensor legs so the bond direction aligns with a
         standard orientation."""
-- 
2.43.0


From 7379c5f3855b7d5f096a1a5da8656e1455f720ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 17/24] fix: make the positive approximation terminate in
 single precision

---
 acetn/evolution/full_update.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8b95149..79002c3 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -285,8 +285,10 @@ def positive_approx(n12, cutoff=1e-12):
         nz,nw,_ = svd(N)
         nw = torch.flip(nw, dims=[-1])
         nz = torch.flip(nz, dims=[-1])
+    eps = torch.finfo(nw.dtype).eps
     while nw[0] < cutoff:
-        N += 2*max(cutoff, abs(nw[0]))*torch.eye(nD**2, dtype=N.dtype, device=N.device)
+        # a smaller shift than the rounding error of N would have no effect
+        N += 2*max(cutoff, abs(nw[0]), eps*nw[-1])*torch.eye(nD**2, dtype=N.dtype, device=N.device)
         try:
             nw,nz = eigh(N)
         except torch._C._LinAlgError:
-- 
2.43.0


From aaec555f6dd58fad607a00950f48daf67497057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 18/24] fix: fall back to INFO for an unknown ACETN_LOG_LEVEL

---
 acetn/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/utils/logger.py b/acetn/utils/logger.py
index 1003731..2a95b6b 100644
--- a/acetn/utils/logger.py
+++ b/acetn/utils/logger.py
@@ -16,7 +16,7 @@ class Logger:
             'CRITICAL': logging.CRITICAL
         }
         log_level = os.getenv('ACETN_LOG_LEVEL', 'INFO').upper()
-        self.logger.setLevel(log_levels.get(log_level))
+        self.logger.setLevel(log_levels.get(log_level, logging.INFO))
 
         self.log_file = log_file if log_level == logging.DEBUG else None
         self._configure_handlers()
-- 
2.43.0


From e1fbe3d3d8b76876033b640664fb34a1a8496d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 19/24] fix: count deep copies of a network as users of the
 process group

---
 acetn/ipeps/ipeps.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 0d24bc8..4932837 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -47,6 +47,16 @@ class Ipeps(TensorNetwork):
         if getattr(self, "is_distributed", False):
             finalize_distributed()
 
+    def __setstate__(self, state):
+        """
+        Restore a copied or unpickled network, which uses the process group like any other.
+        """
+        self.__dict__.update(state)
+        self.is_distributed = False
+        if state.get("is_distributed", False):
+            self.device = setup_process_group(self.rank, self.world_size, self.device)
+            self.is_distributed = True
+
     def setup_distributed(self):
         """
         Set up distributed environment if available.
-- 
2.43.0


From ee0afc1a13b7ebb40bcb0cd8caad2ae2b10b3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 20/24] fix: keep a built-in model for other networks when
 set_model reuses its name

---
 acetn/ipeps/ipeps.py         |  7 ++++++-
 acetn/model/model_factory.py | 22 +++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 4932837..d8810e4 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -6,6 +6,7 @@ from ..renormalization.ctmrg import ctmrg
 from ..evolution.evolve import evolve
 from ..measurement.measure import measure
 from ..model.model_factory import model_factory
+from ..model.models import models
 from ..utils.distributed import *
 from ..utils.logger import *
 
@@ -99,7 +100,11 @@ class Ipeps(TensorNetwork):
             name (str, optional): Name for the custom model.
         """
         name = "custom" if name is None else name.lower()
-        model_factory.register(name, model_cls)
+        if name in models:
+            # a built-in model is replaced for this network only
+            model_factory.validate(model_cls)
+        else:
+            model_factory.register(name, model_cls)
         self.config.model.custom_models[name] = model_cls
         self.config.model.name = name
         self.config.model.params = dict(params or {})
diff --git a/acetn/model/model_factory.py b/acetn/model/model_factory.py
index adeecc8..d7002ce 100644
--- a/acetn/model/model_factory.py
+++ b/acetn/model/model_factory.py
@@ -22,7 +22,24 @@ class ModelFactory:
         Returns:
             None
         """
-        self._models = models
+        self._models = dict(models)
+
+    @staticmethod
+    def validate(cls):
+        """
+        Checks that a class can be used as a model.
+
+        Args:
+            cls (type): The model class to check.
+
+        Raises:
+            TypeError: If the provided class does not inherit from the `Model` base class.
+
+        Returns:
+            None
+        """
+        if not issubclass(cls, Model):
+            raise TypeError("Model class must inherit from Model base class")
 
     def register(self, name, cls):
         """
@@ -41,8 +58,7 @@ class ModelFactory:
         Returns:
             None
         """
-        if not issubclass(cls, Model):
-            raise TypeError("Model class must inherit from Model base class")
+        self.validate(cls)
         self._models[name] = cls
 
     def create(self, config):
-- 
2.43.0


From 3e62c15f1ae2c058d530f4650404f449c87701a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 21/24] fix: undo a boundary update that is interrupted
 half-way

---
 acetn/renormalization/directional_mover.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 4933c99..f42de77 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -346,17 +346,24 @@ class DirectionalMover:
         Assigns renormalized boundary tensors of a whole row or column.
 
         The tensors of a row or column have matching bond dimensions, so they are replaced
-        together once all of them have been calculated.
+        together once all of them have been calculated, or none of them if interrupted.
 
         Args:
             ipeps (IPEPS): The iPEPS object containing the tensor network.
             updates (list): Pairs of a site and the tensors from `calculate_boundary`.
             k (int): The boundary direction (0 for left, 1 for up, 2 for right, 3 for down).
         """
-        for s2, (cj1, cj2, ej) in updates:
-            ipeps[s2]['C'][(3+k)%4] = cj1
-            ipeps[s2]['C'][k] = cj2
-            ipeps[s2]['E'][(3+k)%4] = ej
+        previous = [(s2, list(ipeps[s2]['C']), list(ipeps[s2]['E'])) for s2,_ in updates]
+        try:
+            for s2, (cj1, cj2, ej) in updates:
+                ipeps[s2]['C'][(3+k)%4] = cj1
+                ipeps[s2]['C'][k] = cj2
+                ipeps[s2]['E'][(3+k)%4] = ej
+        except BaseException:
+            for s2, corners, edges in previous:
+                ipeps[s2]['C'][:] = corners
+                ipeps[s2]['E'][:] = edges
+            raise
 
     @staticmethod
     def renormalize_cj1(ci, ei, proj):
-- 
2.43.0


From 5bf4a23d50540bdc757d4c2d5383e2868ce8161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:50 +0000
Subject: [PATCH 22/24] fix: install the initial site tensors together

An initialization that fails part-way left fresh tensors at some sites and renormalized
boundaries of other dimensions at the rest.
---
 acetn/ipeps/tensor_network.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 483b14a..aaa5d95 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -159,13 +159,17 @@ class TensorNetwork:
         """
         Initializes the tensors for the entire tensor network.
 
-        This method creates tensors for all sites in the network and stores them in the `_tensor_network` dictionary.
+        This method creates tensors for all sites in the network and stores them in the `_tensor_network` dictionary,
+        either all of them or, if that fails, none.
         """
-        self.bond_list = self.build_bond_list()
-        self.site_list = self.build_site_list()
-        for site in self.site_list:
+        site_list = self.build_site_list()
+        site_tensors = {}
+        for site in site_list:
             site_state = site_state_map(site)
-            self[site] = SiteTensor(self.dims, site_state=site_state, dtype=self.dtype, device=self.device)
+            site_tensors[site] = SiteTensor(self.dims, site_state=site_state, dtype=self.dtype, device=self.device)
+        self.bond_list = self.build_bond_list()
+        self.site_list = site_list
+        self._tensor_network = site_tensors
         self.site_states_initialized = True
 
     def build_bond_list(self):
-- 
2.43.0


From 8d7041926c11d6803de8c096b669b622426bf87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 23/24] fix: simple update discards bond weights at rounding
 level

---
 acetn/evolution/lambda_tensors.py | 6 +++++-
 acetn/evolution/simple_update.py  | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..44c9243 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -42,8 +42,12 @@ class LambdaTensors:
     def strip(self, a, site, exclude_dir):
         """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
         weights = [
-            1.0 / self.get(site, d).clamp(min=self.CUTOFF) if d != exclude_dir
+            self.inverse(self.get(site, d)) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
         return einsum("l,u,r,d,lurdp->lurdp", *weights, a)
+
+    def inverse(self, weight):
+        """Pseudo-inverse of a lambda vector: discarded weights stay discarded."""
+        return torch.where(weight > self.CUTOFF, 1.0 / weight, 0.)
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 0e3ed41..c3bc345 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -1,5 +1,5 @@
 import time
-from torch import einsum, sqrt
+from torch import einsum, finfo, sqrt, where
 from torch.linalg import svd
 from ..evolution.tensor_update import TensorUpdater
 from ..evolution.lambda_tensors import LambdaTensors
@@ -50,6 +50,9 @@ class SimpleUpdater(TensorUpdater):
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
         S = S[:bD]
+        # weights at the level of rounding errors are noise, which stripping
+        # them from the tensors again would amplify
+        S = where(S > nD*pD*finfo(S.dtype).eps*S[0], S, 0.)
         lambda_tensor = sqrt(S / S.norm())
 
         U = U[:, :bD].reshape(nD, pD, bD)
-- 
2.43.0


From a9d135d95f77398b838ecac614558ed605e3cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:51 +0000
Subject: [PATCH 24/24] fix: regularise the least-squares problems at the
 working precision

In single precision the default als_epsilon is far below the rounding error, so
rank-deficient environments gave arbitrary tensors or a singular matrix error.
---
 acetn/evolution/als_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index f0ba080..8631ecd 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -215,17 +215,19 @@ class ALSSolver:
         S = S.reshape(nD * bD, pD)
         R = R.reshape(nD * bD, nD * bD)
         R = 0.5 * (R + R.mH)
+        # a smaller regularization than the rounding error of R would have no effect
+        epsilon = max(self.epsilon, R.shape[0]*torch.finfo(R.dtype).eps)
         match self.method:
             case "cholesky":
                 try:
-                    R += self.epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=R.dtype, device=R.device)
+                    R += epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=R.dtype, device=R.device)
                     L = cholesky(R)
                     Y = solve_triangular(L, S, upper=False)
                     ar = solve_triangular(L.mH, Y, upper=True)
                 except torch.linalg.LinAlgError:
                     ar = torch.linalg.solve(R, S)
             case "pinv":
-                R_inv = pinv(R, hermitian=True, rcond=self.epsilon)
+                R_inv = pinv(R, hermitian=True, rcond=epsilon)
                 ar = R_inv @ S
         return ar.reshape(nD, bD, pD)
 
-- 
2.43.0

