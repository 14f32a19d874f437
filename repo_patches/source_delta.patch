From 2f9130d4c833e2eb943aa54a63669474e825af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 01/62] fix: do not reverse polygons of the input surface when
 generating a volume

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..723a4e6 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -380,7 +380,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()  # do not alter input surface
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From 9cb18051d2d4c21ffa90835bccd491f74bafc054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 02/62] fix: repeat line data in the right order for surfaces
 in transposed planes

---
 pvgridder/core/_helpers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 723a4e6..05a0471 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -210,13 +210,22 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
-        reps = (perc.size, 1)
+        # Subdivisions vary faster than line points if plane is transposed
+        transposed = plane in {"yx", "zx", "zy"}
+
+        def repeat(v: NDArray, repeats: int) -> NDArray:
+            """Repeat line data."""
+            return (
+                np.repeat(v, repeats, axis=0)
+                if transposed
+                else np.tile(v, (repeats, 1)[: v.ndim]).copy()
+            )
+
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = repeat(v, perc.size)
 
-        reps = (perc.size - 1, 1)
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = repeat(v, perc.size - 1)
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0


From b3dc6761dce4a675cd5ec6070a476923b5fbad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:15 +0000
Subject: [PATCH 03/62] fix: column and layer IDs of structured meshes stacked
 or extruded along X or Y

---
 pvgridder/core/_base.py    | 22 ++++++++++---------
 pvgridder/core/_helpers.py | 43 ++++++++++++++++++++++++++++++++++++++
 pvgridder/core/extrude.py  | 20 ++++++++----------
 3 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..31b6aaf 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -7,6 +7,8 @@ import numpy as np
 import pyvista as pv
 from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
 
+from ._helpers import get_column_layer_ids
+
 
 if TYPE_CHECKING:
     from collections.abc import Callable, Sequence  # pragma: no cover
@@ -484,19 +486,19 @@ class MeshStackBase(MeshBase):
 
             if item2.transition:
                 mesh_b = self._transition(mesh_a, item2.mesh, groups, item2.group)
-                nsub, repeats = 1, mesh_b.n_cells
-                mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
+                nsub = 1
+                column_ids = np.full(mesh_b.n_cells, -1)
+                layer_ids = np.zeros(mesh_b.n_cells, dtype=int)
 
             else:
                 mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
-                nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
-
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, repeats
-            ).copy()
+                nsub = mesh_b.n_cells // mesh_a.n_cells
+                column_ids, layer_ids = get_column_layer_ids(
+                    mesh_b, mesh_a.n_cells, self.axis
+                )
+
+            mesh_b.cell_data["ColumnId"] = column_ids
+            mesh_b.cell_data["LayerId"] = layer_ids + n_layers
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 05a0471..1b77af3 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -556,6 +556,49 @@ def repeat_structured_data(
     ).squeeze()
 
 
+def get_column_layer_ids(
+    mesh: pv.StructuredGrid | pv.UnstructuredGrid,
+    n_columns: int,
+    axis: Optional[int] = None,
+) -> tuple[NDArray, NDArray]:
+    """
+    Get column and layer IDs of the cells of an extruded mesh.
+
+    Parameters
+    ----------
+    mesh : pyvista.StructuredGrid | pyvista.UnstructuredGrid
+        Extruded mesh.
+    n_columns : int
+        Number of cells of the mesh that has been extruded.
+    axis : int, optional
+        The extrusion axis (for structured grids).
+
+    Returns
+    -------
+    NDArray
+        Column IDs.
+    NDArray
+        Layer IDs.
+
+    """
+    n_layers = mesh.n_cells // n_columns
+
+    if isinstance(mesh, pv.StructuredGrid):
+        shape = [max(1, n - 1) for n in mesh.dimensions]
+        layer_ids = np.indices(shape)[axis].ravel(order="F")
+
+        shape[axis] = 1
+        column_ids = repeat_structured_data(
+            shape, np.arange(n_columns), n_layers, axis
+        ).reshape(mesh.n_cells)
+
+    else:
+        column_ids = np.tile(np.arange(n_columns), n_layers)
+        layer_ids = np.repeat(np.arange(n_layers), n_columns)
+
+    return column_ids.copy(), layer_ids.copy()
+
+
 def translate(
     mesh: pv.StructuredGrid | pv.UnstructuredGrid,
     vector: ArrayLike | None,
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..e6f9a7b 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -8,6 +8,7 @@ import pyvista as pv
 from ._base import MeshBase, MeshItem
 from ._helpers import (
     generate_volume_from_two_surfaces,
+    get_column_layer_ids,
 )
 
 
@@ -164,6 +165,11 @@ class MeshExtrude(MeshBase):
             raise ValueError("not enough items to extrude")
 
         groups = {}
+        axis = (
+            self.mesh.dimensions.index(1)
+            if isinstance(self.mesh, pv.StructuredGrid)
+            else None
+        )
 
         # Generate submeshes
         meshes = []
@@ -180,22 +186,14 @@ class MeshExtrude(MeshBase):
             )
 
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            column_ids, layer_ids = get_column_layer_ids(mesh_b, mesh_a.n_cells, axis)
+            mesh_b.cell_data["ColumnId"] = column_ids
+            mesh_b.cell_data["LayerId"] = layer_ids + n_layers
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
 
         # Merge submeshes
-        axis = (
-            self.mesh.dimensions.index(1)
-            if isinstance(self.mesh, pv.StructuredGrid)
-            else None
-        )
         mesh = merge(meshes, axis=axis, merge_points=False)
         mesh.user_dict["CellGroup"] = groups
         _ = mesh.set_active_scalars("CellGroup", preference="cell")
-- 
2.43.0


From 6011626dd63090734bc3340256dd2231c2cf3512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 04/62] fix: cut stack items along the stacking direction,
 through all previous items, without altering them

---
 pvgridder/core/_base.py | 68 +++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 31b6aaf..4e99a4c 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -447,51 +447,26 @@ class MeshStackBase(MeshBase):
         groups = {}
 
         # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
-            if item2.transition:
-                continue
-
-            shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
-                - item2.thickness
-            )
-
-            if not self.bottom_up:
-                shift *= -1.0
-
-            if item2.priority < item1.priority:
-                item2.mesh.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
-                    item2.mesh.points[:, self.axis],
-                )
-
-            else:
-                item1.mesh.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
-                    item1.mesh.points[:, self.axis],
-                )
+        item_meshes = self._cut_items()
 
         # Generate submeshes
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
-            mesh_a = item1.mesh.copy()
+        for i, item2 in enumerate(self.items[1:]):
+            mesh_a, mesh_c = item_meshes[i].copy(), item_meshes[i + 1]
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
             )
 
             if item2.transition:
-                mesh_b = self._transition(mesh_a, item2.mesh, groups, item2.group)
+                mesh_b = self._transition(mesh_a, mesh_c, groups, item2.group)
                 nsub = 1
                 column_ids = np.full(mesh_b.n_cells, -1)
                 layer_ids = np.zeros(mesh_b.n_cells, dtype=int)
 
             else:
-                mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
+                mesh_b = extrude(mesh_a, mesh_c, item2.resolution, item2.method)
                 nsub = mesh_b.n_cells // mesh_a.n_cells
                 column_ids, layer_ids = get_column_layer_ids(
                     mesh_b, mesh_a.n_cells, self.axis
@@ -512,6 +487,39 @@ class MeshStackBase(MeshBase):
             Union[pv.StructuredGrid, pv.UnstructuredGrid], self._clean(mesh, tolerance)
         )
 
+    def _cut_items(
+        self,
+    ) -> list[pv.PolyData | pv.StructuredGrid | pv.UnstructuredGrid]:
+        """Cut copies of intersecting item meshes w.r.t. priority."""
+        meshes = [item.mesh.copy() for item in self.items]
+        sign = 1.0 if self.bottom_up else -1.0
+        start = 0
+
+        for i, item in enumerate(self.items[1:], start=1):
+            if item.transition:
+                start = i
+                continue
+
+            # Minimum distance to all the previous items
+            offsets = np.cumsum([item_.thickness for item_ in self.items[i:start:-1]])
+            previous = list(zip(range(i - 1, start - 1, -1), offsets))
+            z = sign * meshes[i].points[:, self.axis]
+
+            for j, offset in previous:
+                if item.priority < self.items[j].priority:
+                    zj = sign * meshes[j].points[:, self.axis]
+                    z = np.where(z < zj + offset, zj + offset, z)
+
+            meshes[i].points[:, self.axis] = sign * z  # type: ignore
+
+            for j, offset in previous:
+                if item.priority >= self.items[j].priority:
+                    zj = sign * meshes[j].points[:, self.axis]
+                    zj = np.where(z - offset < zj, z - offset, zj)
+                    meshes[j].points[:, self.axis] = sign * zj  # type: ignore
+
+        return meshes
+
     @abstractmethod
     def _transition(self, *args, **kwargs) -> pv.UnstructuredGrid:
         """Generate a transition mesh."""
-- 
2.43.0


From 2eb36df6af82d8706d269227287dc42cb36343d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:40 +0000
Subject: [PATCH 05/62] fix: keep multi-component data of a single structured
 cell when extruding

---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 1b77af3..1f98655 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -542,9 +542,10 @@ def repeat_structured_data(
 
     """
     data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
+    ndim = data.ndim
+    data = data if ndim == 2 else data[:, np.newaxis]
 
-    return np.column_stack(
+    data = np.column_stack(
         [
             np.repeat(
                 v.reshape(shape, order="F"),
@@ -553,7 +554,9 @@ def repeat_structured_data(
             ).ravel(order="F")
             for v in data.T
         ]
-    ).squeeze()
+    )
+
+    return data if ndim == 2 else data[:, 0]
 
 
 def get_column_layer_ids(
-- 
2.43.0


From c7b12c5723e4c46deb467ce253a73a49e6e5b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 06/62] fix: do not overwrite cell groups of merged items when
 generating mesh

---
 pvgridder/core/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..aed03dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From 866ad547e84cf16f69c9fdb35e94cc3ab576154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:10 +0000
Subject: [PATCH 07/62] fix: select cells by group using the group numbers of
 the base mesh

---
 pvgridder/core/_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 4e99a4c..f9034b8 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -158,22 +158,25 @@ class MeshBase(ABC):
                     mask = v(mesh)
 
                 elif isinstance(v, str):
+                    # Select cells using group numbers of the base mesh
+                    base_groups = mesh.user_dict["CellGroup"]
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        mesh.cell_data["CellGroup"] != base_groups[v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else mesh.cell_data["CellGroup"] == base_groups[v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
                     isinstance(x, str) for x in v
                 ):
+                    base_groups = mesh.user_dict["CellGroup"]
                     mask = np.zeros(size, dtype=bool)
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            mesh.cell_data["CellGroup"] != base_groups[cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else mesh.cell_data["CellGroup"] == base_groups[cid]
                         )
 
                 else:
-- 
2.43.0


From 6204d2b3f11e682d85ae7d2cc13a2ed072e8c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 08/62] fix: merge structured grids with multi-component cell
 data

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..16abcc6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -970,11 +970,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape((*shape_a, *v.shape[1:]), order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    (*shape_b, *v.shape[1:]), order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From 82ec0a71becb81c189d5b2e1e9fa939468b4678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 09/62] fix: keep at least two original cell IDs per edge or
 face in cell geometry

---
 pvgridder/utils/_misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 16abcc6..ea7deb3 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -341,7 +341,7 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
+        tmp = -np.ones((len(cell_ids), max(2, *map(len, cell_ids))), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -412,7 +412,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : max(2, (tmp != -1).sum(axis=1).max(initial=0))]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -472,7 +472,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : max(2, (tmp != -1).sum(axis=1).max(initial=0))]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From c996e2ecdb6f19823e9339390d8043a7da376585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:52 +0000
Subject: [PATCH 10/62] fix: find neighbors of cells sharing an edge or a face
 with hidden or several cells

---
 pvgridder/utils/_connectivity.py | 19 +++++++++++--------
 pvgridder/utils/_misc.py         | 12 ++++++++++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..8951fd8 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -37,12 +38,10 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
-
-        neighbors[i1].append(i2)
-        neighbors[i2].append(i1)
+    for ids in mesh["vtkOriginalCellIds"]:
+        for i1, i2 in itertools.combinations(ids[ids != -1], 2):
+            neighbors[i1].append(i2)
+            neighbors[i2].append(i1)
 
     return tuple([np.asanyarray(neighbor) for neighbor in neighbors])
 
@@ -82,7 +81,11 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
-    lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
+    lines = [
+        pair
+        for ids in mesh["vtkOriginalCellIds"]
+        for pair in itertools.combinations(ids[ids != -1], 2)
+    ]
+    lines = np.insert(np.array(lines, dtype=int).reshape((-1, 2)), 0, 2, axis=1).ravel()
 
     return pv.PolyData(cell_centers, lines=lines)
diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ea7deb3..c3b6f99 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -331,7 +331,9 @@ def extract_cell_geometry(
 
                 try:
                     idx = cell_map[cell_set]
-                    cell_ids[idx].append(i)
+
+                    if cell_ids[idx][-1] != i:
+                        cell_ids[idx].append(i)
 
                 except KeyError:
                     idx = len(cell_map)
@@ -341,7 +343,8 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), max(2, *map(len, cell_ids))), dtype=int)
+        n = max(2, max(map(len, cell_ids), default=0))
+        tmp = -np.ones((len(cell_ids), n), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -365,6 +368,11 @@ def extract_cell_geometry(
     celltypes = mesh.celltypes
     connectivity = get_cell_connectivity(mesh)
 
+    if remove_ghost_cells and "vtkGhostType" in mesh.cell_data:
+        # Hidden cells are only blanked when casting structured grids
+        hidden = (mesh.cell_data["vtkGhostType"] & 32) != 0
+        celltypes = np.where(hidden, int(pv.CellType.EMPTY_CELL), celltypes)
+
     if ndim in {1, 2}:
         supported_celltypes = {
             pv.CellType.EMPTY_CELL,
-- 
2.43.0


From fa856c0a832f7d8e9d77294712961a58523ed7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:14 +0000
Subject: [PATCH 11/62] fix: keep labels of categories that are not remapped

---
 pvgridder/utils/_misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c3b6f99..55dd912 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1392,7 +1392,7 @@ def remap_categorical_data(
 
     remapped_data = data.copy()
     data_labels_map = {v: k for k, v in data_labels.items()}
-    unused_labels = set(list(data_labels))
+    unused_labels = {k for k, v in data_labels.items() if v not in data}
 
     for k, v in mapping.items():
         if isinstance(k, str):
@@ -1413,7 +1413,6 @@ def remap_categorical_data(
             try:
                 key_ = k if isinstance(k, str) else data_labels_map[vid]
                 data_labels[key_] = v
-                unused_labels.remove(key_)
 
             except KeyError:
                 pass
-- 
2.43.0


From b38f49bff7831bc41b7a1c760ad2010863a90c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:14 +0000
Subject: [PATCH 12/62] fix: offset polygons away from the origin in the right
 direction and in their plane

---
 pvgridder/utils/_misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 55dd912..7c32786 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1131,6 +1131,7 @@ def offset_polygon(
 
         else:
             axis = np.flatnonzero(mask)[0]
+            coord = points[0, axis]
 
         # Simple polygon offset algorithm
         # Vectorized version of C# code
@@ -1145,7 +1146,7 @@ def offset_polygon(
         )
 
         x, y = points.T
-        signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
+        signed_area = (x[1:-1] * y[2:] - x[2:] * y[1:-1]).sum()
 
         vn = points[2:] - points[1:-1]
         vn /= np.linalg.norm(vn, axis=1)[:, np.newaxis]
@@ -1161,7 +1162,7 @@ def offset_polygon(
         points = points[1:-1] + dist[:, np.newaxis] * vb[:, [1, 0]]
 
         faces += [len(points), *(np.arange(len(points)) + len(points_))]
-        points_ += np.insert(points, axis, 0.0, axis=1).tolist()
+        points_ += np.insert(points, axis, coord, axis=1).tolist()
 
     return pv.PolyData(points_, faces=faces)
 
-- 
2.43.0


From 5f1f149ef2612073851e17602075a6bcb607e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:14 +0000
Subject: [PATCH 13/62] fix: reconstruct a line from the points of any dataset

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 7c32786..7d4bd4a 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1289,7 +1289,7 @@ def reconstruct_line(
         Reconstructed line.
 
     """
-    if isinstance(mesh_or_points, pv.PolyData):
+    if isinstance(mesh_or_points, pv.DataSet):
         points = mesh_or_points.points
 
     else:
-- 
2.43.0


From 06f41239926ab160ef21615f64e762620b2d5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:14 +0000
Subject: [PATCH 14/62] fix: interpolate stack items from lines which points
 are not in increasing order

---
 pvgridder/core/_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index f9034b8..2112510 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -561,12 +561,10 @@ class MeshStackBase(MeshBase):
         else:
             idx = idx[0]
             x = mesh.points[:, idx]
+            points = points[np.argsort(points[:, idx], kind="stable")]
             xp = points[:, idx]
 
-            if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
-                and not extrapolation
-            ):
+            if not (xp[0] <= x.min() and x.max() <= xp[-1]) and not extrapolation:
                 raise ValueError(
                     "could not interpolate from points not fully enclosing base mesh"
                 )
-- 
2.43.0


From 34fe89a2e79bfddb8530bcb8e01a1c04e7baf47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 15/62] fix: orient Voronoi polygons using their signed area

---
 pvgridder/core/voronoi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..4378adb 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -474,7 +474,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -511,7 +511,7 @@ class VoronoiMesh2D(MeshBase):
         """Compute signed area of a polygon given its vertices."""
         x, y = points.T
 
-        return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
+        return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
 
     def _generate_voronoi_tesselation(
         self,
-- 
2.43.0


From e08fc2f94b859ce69a7deda0b5eda5c1715f71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 16/62] fix: ignore Voronoi items that are fully out of bounds

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 4378adb..0edee38 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -386,9 +386,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From da8943c7507c08b6d49a66aaad89a928dd543441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 17/62] fix: add circles to Voronoi meshes along X and Y axes

---
 pvgridder/core/voronoi.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 0edee38..6b4d219 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -144,26 +144,35 @@ class VoronoiMesh2D(MeshBase):
             constraint_radius if constraint_radius is not None else 1.5 * radius
         )
         dr = constraint_radius - radius
+        center = np.zeros(3) if center is None else self._check_point_array(center)
+        center = np.where(np.arange(3) == self.axis, 0.0, center)
+
+        def place(mesh: pv.DataSet) -> pv.DataSet:
+            """Move a mesh in the XY plane to the plane of the background mesh."""
+            points = np.insert(mesh.points[:, :2], self.axis, 0.0, axis=1)
+            mesh.points = points + center
+
+            return mesh
 
         if dr > 0.0:
             self.add(
-                (
+                place(
                     MeshMerge()
-                    .add(Circle(radius - dr, resolution, center=center))
-                    .add(Annulus(radius - dr, radius, 1, resolution, center=center))
+                    .add(Circle(radius - dr, resolution))
+                    .add(Annulus(radius - dr, radius, 1, resolution))
                     .generate_mesh()
                 ),
                 priority=priority,
                 group=group,
             )
             self.add(
-                Annulus(radius, radius + dr, 1, resolution, center=center),
+                place(Annulus(radius, radius + dr, 1, resolution)),
                 priority=0,
             )
 
         elif dr == 0.0:
             self.add(
-                Circle(radius, resolution, center=center),
+                place(Circle(radius, resolution)),
                 priority=priority,
                 group=group,
             )
@@ -172,8 +181,6 @@ class VoronoiMesh2D(MeshBase):
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.zeros(3) if center is None else np.asanyarray(center)
-            center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
             self.fuse_cells.append(
                 lambda x: np.linalg.norm(x - center, axis=1) < radius
             )
-- 
2.43.0


From 364ff080e20a0b76112bafb6dbcb9f49fb6c69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 18/62] fix: identify holes of meshes in XZ and YZ planes

---
 pvgridder/utils/_misc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 7d4bd4a..f57d110 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -252,7 +252,13 @@ def extract_boundary_polygons(
     # Identify holes
     if with_holes:
         holes = {}
-        polygons = [shapely.Polygon(edge.points) for edge in edges]
+
+        # Discard Z axis unless boundary edges are perpendicular to X or Y axis
+        extent = np.ptp(np.concatenate([edge.points for edge in edges]), axis=0)
+        axis = 2 if extent[:2].all() else int(extent[:2].argmin())
+        polygons = [
+            shapely.Polygon(np.delete(edge.points, axis, axis=1)) for edge in edges
+        ]
 
         for i, j in itertools.permutations(range(len(polygons)), 2):
             if i in holes or j in holes:
-- 
2.43.0


From 91d01fc4f6f81aff9a8faf1ce36effad42849872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:19 +0000
Subject: [PATCH 19/62] fix: dip of planes added to a stack, without altering
 input angles

---
 pvgridder/core/stack.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..cfe28d0 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,19 +207,18 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
+        angles = np.array(angles, dtype=float)
         point = np.asanyarray(point)
 
         angles[self.axis] = 0.0
         rot = Rotation.from_rotvec(angles, degrees=True)
+        normal = rot.apply(np.eye(3)[self.axis], inverse=True)
         idx = np.delete(np.arange(3), self.axis)
 
         def func(x: ArrayLike, y: ArrayLike, z: ArrayLike) -> NDArray:
-            points = np.column_stack((x, y, z))
-            points[:, idx] -= point[idx]
-            points[:, self.axis] = 0.0
+            points = np.column_stack((x, y, z))[:, idx] - point[idx]
 
-            return rot.apply(points, inverse=True)[:, self.axis] + point[self.axis]
+            return point[self.axis] - points @ normal[idx] / normal[self.axis]
 
         return self.add(func, *args, **kwargs)
 
-- 
2.43.0


From 623b46fc49127f65753e88afdfff6de2c44936df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:38 +0000
Subject: [PATCH 20/62] fix: lasso selection in XZ and YZ views

---
 pvgridder/utils/_interactive.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 6827312..a62fc78 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -146,22 +146,22 @@ def interactive_lasso_selection(
 
     # Select cells or points within the lasso polygon
     if "x" not in view_:
-        points_ = np.delete(points.points, 0, axis=1)
+        axis = 0
 
     elif "y" not in view_:
-        points_ = np.delete(points.points, 1, axis=1)
+        axis = 1
 
     else:
-        points_ = np.delete(points.points, 2, axis=1)
+        axis = 2
 
-    polygon_ = Polygon(points_)
+    polygon_ = Polygon(np.delete(points.points, axis, axis=1))
 
     if preference == "cell":
         centers = get_cell_centers(mesh)
-        mask = contains_xy(polygon_, centers)
+        mask = contains_xy(polygon_, np.delete(centers, axis, axis=1))
 
     else:
-        mask = contains_xy(polygon_, mesh.points)
+        mask = contains_xy(polygon_, np.delete(mesh.points, axis, axis=1))
 
     ind = np.flatnonzero(mask)
 
-- 
2.43.0


From b3f1702e2fb8589d42ea8c7e9a081d223ca0eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:38 +0000
Subject: [PATCH 21/62] fix: subdivide the arc of a sector rectangle with the
 azimuthal subdivision method

---
 pvgridder/core/geometric_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..779798d 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1000,8 +1000,8 @@ def SectorRectangle(
     line_y = generate_line_from_two_points(
         [dx, dy], [dx, 0.0], theta_resolution, theta_method
     )
-    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution)
-    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution)
+    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution, theta_method)
+    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution, theta_method)
     mesh_y45 = StructuredSurface(line_45, line_y, "xy", r_resolution, r_method)
     mesh_x90 = StructuredSurface(line_90, line_x, "xy", r_resolution, r_method)
     mesh = mesh_y45.cast_to_unstructured_grid() + mesh_x90.cast_to_unstructured_grid()
-- 
2.43.0


From 86b3156b69fea52d556ed7696aed252f24dc8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:38 +0000
Subject: [PATCH 22/62] fix: reject non positive radius of rectangle sectors

---
 pvgridder/core/geometric_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 779798d..12cbfcb 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -834,7 +834,7 @@ def RectangleSector(
         Rectangle mesh with sector removed at the center.
 
     """
-    if 0.0 < radius < (dx**2 + dy**2) ** 0.5:
+    if radius < (dx**2 + dy**2) ** 0.5:
         raise ValueError("invalid sector radius")
 
     line_x = generate_line_from_two_points([dx, dy], [0.0, dy], x_resolution, x_method)
-- 
2.43.0


From 25ca6d5ac03f51744db68bab52cd53c8f4fc3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:36 +0000
Subject: [PATCH 23/62] fix: orient faces of polyhedra extruded from polygons
 with aligned points or concave corners

---
 pvgridder/core/_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 1f98655..9ee4953 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -405,10 +405,11 @@ def generate_volume_from_two_surfaces(
                 if invert_polyhedron_faces:
                     # Polyhedron faces must be ordered such that normal vectors point outwards
                     # Determine whether base face needs to be reversed
-                    p0, p1, p2 = points[faces[0][:3]]
-                    p3 = points[faces[1][0]]
+                    p0 = points[faces[0]] - points[faces[0][0]]
+                    normal = np.cross(p0, np.roll(p0, -1, axis=0)).sum(axis=0)
+                    direction = (points[faces[1]] - points[faces[0]]).sum(axis=0)
 
-                    if np.cross(p1 - p0, p2 - p0) @ (p3 - p0) >= 0.0:
+                    if normal @ direction >= 0.0:
                         faces[0][:] = faces[0][::-1]
                         faces[1][:] = faces[1][::-1]
 
-- 
2.43.0


From 990769a9f1babaccb384b157564f3479cc8b8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:37 +0000
Subject: [PATCH 24/62] fix: hide collapsed cells of structured volumes between
 non planar surfaces

---
 pvgridder/core/_helpers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 9ee4953..d0579f9 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -346,10 +346,17 @@ def generate_volume_from_two_surfaces(
         mesh = pv.StructuredGrid(X, Y, Z)
 
         # Handle collapsed cells
-        volumes = mesh.compute_cell_sizes(
-            length=False, area=False, volume=True
-        ).cell_data["Volume"]
-        inactive = np.abs(volumes) == 0.0
+        # Do not rely on cell volumes as they are not exact for non planar faces
+        areas = [
+            surface.compute_cell_sizes(length=False, area=True, volume=False).cell_data[
+                "Area"
+            ]
+            for surface in (surface_a, surface_b)
+        ]
+        mask = (surface_a.points == surface_b.points).all(axis=1)
+        mask = mask.reshape(surface_a.dimensions, order="F").squeeze(axis)
+        mask = mask[:-1, :-1] & mask[1:, :-1] & mask[:-1, 1:] & mask[1:, 1:]
+        inactive = mask.ravel(order="F") | (np.abs(areas) == 0.0).all(axis=0)
 
         # Repeat data
         shape = surface_a.dimensions
@@ -360,6 +367,8 @@ def generate_volume_from_two_surfaces(
         for k, v in surface_a.cell_data.items():
             mesh.cell_data[k] = repeat_structured_data(shape, v, perc.size - 1, axis)
 
+        inactive = repeat_structured_data(shape, inactive, perc.size - 1, axis)
+
     elif isinstance(surface_a, pv.UnstructuredGrid):
         if not (_extruded_celltype_map[surface_a.celltypes] != -1).all():
             raise ValueError(
-- 
2.43.0


From c2c50463c145198b59f8513ca0193a2d1b5d32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:25 +0000
Subject: [PATCH 25/62] fix: do not hide thin cells of unstructured volumes at
 high elevations

---
 pvgridder/core/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index d0579f9..a58c87a 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -408,7 +408,8 @@ def generate_volume_from_two_surfaces(
             faces = [cell, cell + n_points]
 
             # Handle collapsed cells
-            is_collapsed = np.allclose(*points[faces])
+            # Tolerance must not depend on elevation nor on subdivision
+            is_collapsed = np.allclose(points_a[cell], points_b[cell], rtol=0.0)
 
             if celltype == pv.CellType.POLYHEDRON:
                 if invert_polyhedron_faces:
-- 
2.43.0


From 1152b44a56b0e8d031814b285c19d64017d9b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:38 +0000
Subject: [PATCH 26/62] fix: interpolate between single precision surfaces in
 double precision

---
 pvgridder/core/_helpers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index a58c87a..6b25eda 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -331,8 +331,13 @@ def generate_volume_from_two_surfaces(
             axis = 2
             slice_ = (slice(None), slice(None), 0)
 
-        xa, ya, za = surface_a.x[slice_], surface_a.y[slice_], surface_a.z[slice_]
-        xb, yb, zb = surface_b.x[slice_], surface_b.y[slice_], surface_b.z[slice_]
+        # Interpolate in double precision
+        xa, ya, za = (
+            x[slice_].astype(float) for x in (surface_a.x, surface_a.y, surface_a.z)
+        )
+        xb, yb, zb = (
+            x[slice_].astype(float) for x in (surface_b.x, surface_b.y, surface_b.z)
+        )
         xa = np.expand_dims(xa, axis)
         ya = np.expand_dims(ya, axis)
         za = np.expand_dims(za, axis)
@@ -380,8 +385,9 @@ def generate_volume_from_two_surfaces(
                 "could not generate volume from two inhomogeneous unstructured surfaces"
             )
 
-        points_a = surface_a.points
-        points_b = surface_b.points
+        # Interpolate in double precision
+        points_a = surface_a.points.astype(float)
+        points_b = surface_b.points.astype(float)
         n_points = surface_a.n_points
 
         perc = resolution_to_perc(resolution, method)[:, np.newaxis, np.newaxis]
-- 
2.43.0


From f1ec0b2f136f1a30eb945189c74e771d7021cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:38 +0000
Subject: [PATCH 27/62] fix: keep coordinates of split lines in double
 precision

---
 pvgridder/utils/_misc.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f57d110..c483965 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1459,13 +1459,12 @@ def split_lines(mesh: pv.PolyData, as_lines: bool = True) -> Sequence[pv.PolyDat
     """
     from pyvista.core.cell import _get_irregular_cells
 
-    mesh = cast(
-        pv.PolyData,
-        mesh.extract_cells_by_type((pv.CellType.LINE, pv.CellType.POLY_LINE)),
-    )
     lines = []
 
-    for i, line_ids in enumerate(_get_irregular_cells(mesh.GetLines())):
+    # Cells of a polydata are ordered as vertices, lines, polygons and strips
+    for i, line_ids in enumerate(
+        _get_irregular_cells(mesh.GetLines()), start=mesh.n_verts
+    ):
         lines_ = (
             np.insert(
                 np.column_stack(
-- 
2.43.0


From 73fcf1474216338bdea6bb308c337cd57425a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:33 +0000
Subject: [PATCH 28/62] fix: match interfaces of stacks in single precision

---
 pvgridder/core/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 2112510..b490bc6 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -495,6 +495,11 @@ class MeshStackBase(MeshBase):
     ) -> list[pv.PolyData | pv.StructuredGrid | pv.UnstructuredGrid]:
         """Cut copies of intersecting item meshes w.r.t. priority."""
         meshes = [item.mesh.copy() for item in self.items]
+
+        # Generate mesh in double precision for interfaces to match
+        for mesh in meshes:
+            mesh.points = mesh.points.astype(float)
+
         sign = 1.0 if self.bottom_up else -1.0
         start = 0
 
-- 
2.43.0


From 4553ba1c588d3a583d9c440f0dcab99535052933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:54 +0000
Subject: [PATCH 29/62] fix: select cells by indices returned by a function or
 an empty sequence in group mappings

---
 pvgridder/core/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index b490bc6..1cd81d5 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -155,9 +155,9 @@ class MeshBase(ABC):
 
             for k, v in group.items():
                 if hasattr(v, "__call__"):
-                    mask = v(mesh)
+                    v = v(mesh)
 
-                elif isinstance(v, str):
+                if isinstance(v, str):
                     # Select cells using group numbers of the base mesh
                     base_groups = mesh.user_dict["CellGroup"]
                     mask = (
@@ -169,10 +169,10 @@ class MeshBase(ABC):
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
                     isinstance(x, str) for x in v
                 ):
-                    base_groups = mesh.user_dict["CellGroup"]
                     mask = np.zeros(size, dtype=bool)
 
                     for cid in v:
+                        base_groups = mesh.user_dict["CellGroup"]
                         mask |= (
                             mesh.cell_data["CellGroup"] != base_groups[cid[1:]]
                             if cid.startswith("~")
-- 
2.43.0


From ff95995aa20818cd80f19dbc2637de97fc3a2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:54 +0000
Subject: [PATCH 30/62] fix: do not share input meshes with extrusions and
 merges

---
 pvgridder/core/extrude.py | 1 +
 pvgridder/core/merge.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index e6f9a7b..8e3924a 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -64,6 +64,7 @@ class MeshExtrude(MeshBase):
         if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
             mesh = mesh.cast_to_structured_grid()
 
+        mesh = mesh.copy()
         super().__init__(default_group, ignore_groups, items=[MeshItem(mesh)])
         self._mesh = mesh
         self._angle = angle
diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index aed03dd..ab24d3c 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -59,7 +59,7 @@ class MeshMerge(MeshBase):
             Self (for daisy chaining).
 
         """
-        mesh = mesh.cast_to_unstructured_grid()
+        mesh = mesh.cast_to_unstructured_grid().copy()
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
-- 
2.43.0


From 4417543881b9167fbf4ed401042f82c547b81f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:03 +0000
Subject: [PATCH 31/62] fix: do not alter points added to Voronoi meshes

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 6b4d219..ab8e9d5 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -86,7 +86,7 @@ class VoronoiMesh2D(MeshBase):
         """
         if not isinstance(mesh_or_points, pv.DataSet):
             mesh_or_points = self._check_point_array(mesh_or_points)
-            mesh = pv.PolyData(mesh_or_points)
+            mesh = pv.PolyData(mesh_or_points.copy())
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From 5528cc783fb9ee44ba4c41346594b2e4ce1869e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:39 +0000
Subject: [PATCH 32/62] fix: merge meshes in double precision

---
 pvgridder/core/merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index ab24d3c..c09df68 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -60,6 +60,7 @@ class MeshMerge(MeshBase):
 
         """
         mesh = mesh.cast_to_unstructured_grid().copy()
+        mesh.points = mesh.points.astype(float)
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
-- 
2.43.0


From fbc1c5c2c43721a5f3d13a2240966cf85136015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:19 +0000
Subject: [PATCH 33/62] fix: Voronoi meshes of points aligned along oblique
 boundaries

---
 pvgridder/core/voronoi.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ab8e9d5..d565206 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -546,26 +546,30 @@ class VoronoiMesh2D(MeshBase):
             ridges.setdefault(p2, []).append((p1, v1, v2))
 
         # Reconstruct infinite regions
+        # Vertices between aligned points are too far away to be accurate, so they are
+        # considered to be at infinity as well
         center = voronoi.points.mean(axis=0)
-        radius = infinity if infinity else np.ptp(self.mesh.points).max() * 1.0e3
+        limit = np.ptp(self.mesh.points).max() * 1.0e3
+        radius = infinity if infinity else limit
+        far = np.linalg.norm(voronoi.vertices - center, axis=1) > limit
         new_vertices = voronoi.vertices.tolist()
         new_regions = []
 
         for p1, region in enumerate(voronoi.point_region):
             vertices = voronoi.regions[region]
 
-            if -1 not in vertices:
+            if not any(v < 0 or far[v] for v in vertices):
                 new_regions.append(vertices)
 
             else:
                 ridge = ridges[p1]
-                new_region = [v for v in vertices if v >= 0]
+                new_region = [v for v in vertices if v >= 0 and not far[v]]
 
                 for p2, v1, v2 in ridge:
-                    if v2 < 0:
+                    if v2 < 0 or far[v2]:
                         v1, v2 = v2, v1
 
-                    if v1 >= 0:
+                    if (v1 >= 0 and not far[v1]) or v2 < 0 or far[v2]:
                         continue
 
                     t = voronoi.points[p2] - voronoi.points[p1]
@@ -581,7 +585,7 @@ class VoronoiMesh2D(MeshBase):
 
                 # Sort region counterclockwise
                 vs = np.array([new_vertices[v] for v in new_region])
-                c = vs.mean(axis=0)
+                c = voronoi.points[p1]
                 angles = np.arctan2(vs[:, 1] - c[1], vs[:, 0] - c[0])
                 new_regions.append([new_region[i] for i in np.argsort(angles)])
 
-- 
2.43.0


From c0a8703a7c500798529287e8c36a7c9440bd01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:32 +0000
Subject: [PATCH 34/62] fix: do not fuse empty selections of cells of Voronoi
 meshes

---
 pvgridder/core/voronoi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index d565206..0b064f2 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -511,7 +511,8 @@ class VoronoiMesh2D(MeshBase):
         if self.fuse_cells:
             points = get_cell_centers(mesh)
             indices = [func(points) for func in self.fuse_cells]
-            mesh = fuse_cells(mesh, indices)
+            indices = [mask for mask in indices if mask.any()]
+            mesh = fuse_cells(mesh, indices) if indices else mesh
 
         return cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
 
-- 
2.43.0


From fc845d26b827ed37e28fc6b463260b560fdfb82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:27 +0000
Subject: [PATCH 35/62] fix: do not keep empty cells by default when extracting
 cells of lower dimension

---
 pvgridder/utils/_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c483965..24780f1 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -585,8 +585,8 @@ def extract_cells_by_dimension(
     else:
         raise ValueError(f"invalid method '{method}' (expected 'lower' or 'upper')")
 
-    if keep_empty_cells:
-        mask |= mesh.celltypes == pv.CellType.EMPTY_CELL
+    is_empty = mesh.celltypes == pv.CellType.EMPTY_CELL
+    mask = mask | is_empty if keep_empty_cells else mask & ~is_empty
 
     if not mask.all():
         mesh = extract_cells(mesh, mask)
-- 
2.43.0


From 72adccf8c3580ad0dc68c1cde47399326ce83b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:57 +0000
Subject: [PATCH 36/62] fix: do not add arrays to the input mesh when
 extracting all its cells

---
 pvgridder/utils/_misc.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 24780f1..fdfac5e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -524,21 +524,18 @@ def extract_cells(
 
     """
     ind = np.asanyarray(ind)
+
+    # Do not add nor remove arrays of the input mesh
+    mesh = mesh.copy(deep=False)
     ghost_cells = (
         mesh.cell_data.pop("vtkGhostType") if "vtkGhostType" in mesh.cell_data else None
     )
+    cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-    try:
-        cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
-
-        if ghost_cells is not None:
-            cells.cell_data["vtkGhostType"] = ghost_cells[
-                cells.cell_data["vtkOriginalCellIds"]
-            ]
-
-    finally:
-        if ghost_cells is not None:
-            mesh.cell_data["vtkGhostType"] = ghost_cells
+    if ghost_cells is not None:
+        cells.cell_data["vtkGhostType"] = ghost_cells[
+            cells.cell_data["vtkOriginalCellIds"]
+        ]
 
     return cast(pv.UnstructuredGrid, cells)
 
-- 
2.43.0


From 992cd77d772eb7519187e3a3779319980aa64055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:17 +0000
Subject: [PATCH 37/62] fix: extract no cell of a mesh with hidden cells

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index fdfac5e..89df2f0 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -532,7 +532,7 @@ def extract_cells(
     )
     cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-    if ghost_cells is not None:
+    if ghost_cells is not None and cells.n_cells:
         cells.cell_data["vtkGhostType"] = ghost_cells[
             cells.cell_data["vtkOriginalCellIds"]
         ]
-- 
2.43.0


From 66e5e9483e878bfce919224f0351ccc875310391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:51 +0000
Subject: [PATCH 38/62] fix: try all reversals when reconstructing a line

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 89df2f0..791748b 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1317,7 +1317,7 @@ def reconstruct_line(
     while True:
         best_length = shortest_length
 
-        for first in range(1, n - 2):
+        for first in range(1, n - 1):
             for last in range(first + 2, n + 1):
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
-- 
2.43.0


From 83ea454663ceab08132bf086ac779c79d8aba306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:49 +0000
Subject: [PATCH 39/62] fix: average all points of point clouds and meshes of
 which all faces collapse

---
 pvgridder/utils/_misc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 791748b..d5ff8d3 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -82,13 +82,17 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
             decimate(point_map[face], close=True) for face in mesh.irregular_faces
         ]
         faces = [face for face in irregular_faces if face.size > 2]
-        new_mesh = pv.PolyData().from_irregular_faces(new_points, faces)
-        new_mesh.cell_data["vtkOriginalCellIds"] = [
-            i for i, face in enumerate(irregular_faces) if face.size > 2
-        ]
+        new_mesh = (
+            pv.PolyData().from_irregular_faces(new_points, faces)
+            if faces
+            else pv.PolyData()
+        )
+        new_mesh.cell_data["vtkOriginalCellIds"] = np.array(
+            [i for i, face in enumerate(irregular_faces) if face.size > 2], dtype=int
+        )
 
     else:
-        new_mesh = pv.PolyData(new_points)
+        new_mesh = pv.PolyData(new_points[np.unique(point_map)])
 
     if mesh.n_lines:
         raise NotImplementedError()
-- 
2.43.0


From 96f452ce9d7835f9bbd0a2b8e34ec37136b721be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:22 +0000
Subject: [PATCH 40/62] fix: do not skip reversals after one that only gains
 rounding errors

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index d5ff8d3..be005a0 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1326,7 +1326,7 @@ def reconstruct_line(
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
 
-                if length < shortest_length:
+                if length < (1.0 - tolerance) * shortest_length:
                     shortest_path[:] = path
                     shortest_length = length
 
-- 
2.43.0


From 52b855801ed4c86b9d68f5dd6330c2c17679ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:11 +0000
Subject: [PATCH 41/62] fix: find where a polyline enters, leaves or ends in a
 mesh, and label all its pieces

---
 pvgridder/utils/_misc.py | 73 ++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index be005a0..a5ce30c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -752,22 +752,29 @@ def intersect_polyline(
 
     cell_geometry = extract_cell_geometry(mesh, remove_ghost_cells=True)
     tree = KDTree(get_cell_centers(cell_geometry))
+    boundary_ids = np.flatnonzero(
+        (cell_geometry.cell_data["vtkOriginalCellIds"] < 0).any(axis=1)
+    )
+    boundary = extract_cells(cell_geometry, boundary_ids).extract_geometry()
 
     for lid, (pointa, pointb) in enumerate(zip(lines.points[:-1], lines.points[1:])):
         # Find the first cell intersected by the line
         if cell is None:
-            ids = mesh.find_cells_intersecting_line(pointa, pointb, tolerance=tolerance)
+            cid = mesh.find_containing_cell(pointa)
 
-            if ids.size == 0:
-                add_point(pointb, lid, -1)
-                continue
+            if cid < 0:
+                intersections = ray_cast(boundary, pointa, pointb, tolerance=tolerance)
+
+                if intersections is None:
+                    add_point(pointb, lid, -1)
+                    continue
+
+                id_ = np.linalg.norm(
+                    intersections.cell_data["IntersectionPoints"] - pointa, axis=-1
+                ).argmin()
+                id_ = boundary_ids[intersections.cell_data["vtkOriginalCellIds"][id_]]
+                cid = cell_geometry.cell_data["vtkOriginalCellIds"][id_].max()
 
-            ids = np.sort(ids)
-            id_ = np.linalg.norm(
-                get_cell_centers(extract_cells(mesh, ids)) - pointa,
-                axis=-1,
-            ).argmin()
-            cid = ids[id_]
             cell = extract_cells(mesh, cid)
 
         if not mesh_exited:
@@ -783,36 +790,36 @@ def intersect_polyline(
                 # Find the exit, if any
                 # Line is fully contained in the cell
                 if intersections is None:
+                    if lid == lines.n_lines - 1:
+                        add_point(pointb, lid, int(cid))
+
                     break
 
                 # Either an entrance or an exit
                 elif intersections.n_cells == 1:
-                    # It's an entrance if intersection point matches previous point
-                    if not mesh_entered or np.allclose(
-                        points[-1],
-                        intersections.cell_data["IntersectionPoints"][0],
-                        atol=tolerance,
-                    ):
-                        if not mesh_entered:
+                    point = intersections.cell_data["IntersectionPoints"][0]
+
+                    # It's an entrance if the line starts out of the cell and ends in it
+                    if not mesh_entered:
+                        mesh_entered = True
+
+                        if cell.find_containing_cell(pointb) > -1 and (
+                            cell.find_containing_cell(pointa) < 0
+                            or np.allclose(pointa, point, atol=tolerance)
+                        ):
                             count = len(points)
-                            mesh_entered = True
-                            add_point(
-                                intersections.cell_data["IntersectionPoints"][0],
-                                lid,
-                                -1,
-                            )
-
-                            if count > 1:
-                                break
-
-                        else:
-                            add_point(
-                                intersections.cell_data["IntersectionPoints"][0],
-                                lid,
-                                int(cid),
-                            )
+                            add_point(point, lid, -1)
+
+                            if lid == lines.n_lines - 1:
+                                add_point(pointb, lid, int(cid))
+
                             break
 
+                    # It's an entrance if intersection point matches previous point
+                    elif np.allclose(points[-1], point, atol=tolerance):
+                        add_point(point, lid, int(cid))
+                        break
+
                     fid = 0
 
                 # The exit is the farthest from last point
-- 
2.43.0


From 8aeefd7c121dec0514263351da611d3c78016bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:43 +0000
Subject: [PATCH 42/62] fix: intersect all segments of long lines

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index a5ce30c..08a92bd 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -725,7 +725,7 @@ def intersect_polyline(
     """
     from .. import get_cell_centers
 
-    line_ = cast(pv.PolyData, line.strip())
+    line_ = cast(pv.PolyData, line.strip(max_length=line.n_points))
     lines = split_lines(line_, as_lines=True)[0]
 
     # Recenter coordinates around zero to prevent accuracy issues
-- 
2.43.0


From ceefcc63158fabacf8256976caa4f0477256c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:43 +0000
Subject: [PATCH 43/62] fix: pass cell data of a single polyline to its
 intersections

---
 pvgridder/utils/_misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 08a92bd..ebd5389 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -901,11 +901,14 @@ def intersect_polyline(
     polyline.cell_data["IntersectedCellIds"] = cell_ids
 
     if pass_cell_data:
+        # All segments of a single polyline have the same data
+        data_ids = line_ids if line.n_cells > 1 else np.zeros_like(line_ids)
+
         for k, v in line.cell_data.items():
             if k in polyline.cell_data:
                 continue
 
-            polyline.cell_data[k] = v[line_ids]
+            polyline.cell_data[k] = v[data_ids]
 
     return cast(pv.PolyData, polyline.translate(center))
 
-- 
2.43.0


From 2c54a2bb499fc8887456aa91d6e819ed9d3cd1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:29 +0000
Subject: [PATCH 44/62] fix: keep double precision of points of intersected
 polylines

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ebd5389..6383e29 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -894,7 +894,7 @@ def intersect_polyline(
         line_ids = line_ids[count:]
         cell_ids = cell_ids[count:]
 
-    polyline = split_lines(pv.MultipleLines(points))[0].compute_cell_sizes(
+    polyline = pv.lines_from_points(np.array(points)).compute_cell_sizes(
         length=True, area=False, volume=False
     )
     polyline.cell_data["vtkOriginalCellIds"] = line_ids
-- 
2.43.0


From 76e67767be913007e14dc1b4cf2bb2c668105b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 45/62] fix: reconstruct lines from single precision or
 coincident points

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 6383e29..fd44608 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1345,7 +1345,7 @@ def reconstruct_line(
                         path[first:last]
                     )  # reset path to current shortest path
 
-        if shortest_length > (1.0 - tolerance) * best_length:
+        if shortest_length >= (1.0 - tolerance) * best_length:
             break
 
     points = points[shortest_path]
-- 
2.43.0


From 2a34877d2ab8c172cfe9a445a4d556fba6726211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 46/62] fix: do not split lines with many segments when
 generating surfaces

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 6b25eda..74e7891 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -148,7 +148,7 @@ def generate_surface_from_two_lines(
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
-                lines = line.strip(join=True).lines
+                lines = line.strip(join=True, max_length=line.n_points).lines
                 ids = lines[1 : lines[0] + 1]
 
             # Use the first polygon otherwise
-- 
2.43.0


From 165998f4de71afa8af91c2b0829ebb2c12960422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 47/62] fix: repeat data of lines along their points when
 generating surfaces

---
 pvgridder/core/_helpers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 74e7891..01af1f3 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -143,8 +143,8 @@ def generate_surface_from_two_lines(
 
     """
 
-    def get_points(line: pv.PolyData | ArrayLike) -> NDArray:
-        """Get line points."""
+    def get_points(line: pv.PolyData | ArrayLike) -> tuple[NDArray, NDArray | None]:
+        """Get line points and their IDs."""
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
@@ -156,13 +156,13 @@ def generate_surface_from_two_lines(
                 ids = line.irregular_faces[0]
                 ids = np.append(ids, ids[0])
 
-            return line.points[ids]
+            return line.points[ids], ids
 
         else:
-            return np.asanyarray(line)
+            return np.asanyarray(line), None
 
-    line_points_a = get_points(line_a)
-    line_points_b = get_points(line_b)
+    line_points_a, ids_a = get_points(line_a)
+    line_points_b, _ = get_points(line_b)
 
     if line_points_a.shape != line_points_b.shape:
         raise ValueError(
@@ -222,9 +222,11 @@ def generate_surface_from_two_lines(
             )
 
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = repeat(v, perc.size)
+            mesh.point_data[k] = repeat(v[ids_a], perc.size)
 
+        # All segments of a single polyline or polygon have the same data
         for k, v in line_a.cell_data.items():
+            v = np.repeat(v, len(line_points_a) - 1, axis=0) if len(v) == 1 else v
             mesh.cell_data[k] = repeat(v, perc.size - 1)
 
     # Handle collapsed cells
-- 
2.43.0


From 261aaba560da5b99a70b3512c771a24dc8c166bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:18 +0000
Subject: [PATCH 48/62] fix: do not take polygons enclosed in holes for holes

---
 pvgridder/utils/_misc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index fd44608..2b8ee1e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import itertools
 from collections.abc import Sequence
 from typing import TYPE_CHECKING, cast, overload
 
@@ -264,14 +263,16 @@ def extract_boundary_polygons(
             shapely.Polygon(np.delete(edge.points, axis, axis=1)) for edge in edges
         ]
 
-        for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
+        for j, polygon in enumerate(polygons):
+            outers = [
+                i
+                for i in range(len(polygons))
+                if polygons[i].area > polygon.area and polygons[i].contains(polygon)
+            ]
 
-            if polygons[i].area > polygons[j].area and polygons[i].contains(
-                polygons[j]
-            ):
-                holes[j] = i
+            # An edge enclosed in a hole is the boundary of another polygon
+            if len(outers) % 2 == 1:
+                holes[j] = min(outers, key=lambda i: polygons[i].area)
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From a7032f93144f85029f210d1d57764487d455ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:06 +0000
Subject: [PATCH 49/62] fix: keep the end of polylines with a vertex on a face
 when intersecting

---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 2b8ee1e..9720784 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -818,7 +818,9 @@ def intersect_polyline(
 
                     # It's an entrance if intersection point matches previous point
                     elif np.allclose(points[-1], point, atol=tolerance):
-                        add_point(point, lid, int(cid))
+                        if lid == lines.n_lines - 1:
+                            add_point(pointb, lid, int(cid))
+
                         break
 
                     fid = 0
-- 
2.43.0


From 3797076740e7d5251d67b50640857f942d84855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:39 +0000
Subject: [PATCH 50/62] fix: remove repeated vertices of Voronoi cells with
 merged points

---
 pvgridder/core/voronoi.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 0b064f2..69b9be6 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -514,7 +514,20 @@ class VoronoiMesh2D(MeshBase):
             indices = [mask for mask in indices if mask.any()]
             mesh = fuse_cells(mesh, indices) if indices else mesh
 
-        return cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
+        mesh = cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
+
+        # Remove points of polygons repeated by merging duplicate points, if any
+        cells = np.split(mesh.cell_connectivity, mesh.offset[1:-1])
+        cells = [cell[cell != np.roll(cell, 1)] for cell in cells]
+
+        if sum(len(cell) for cell in cells) < len(mesh.cell_connectivity):
+            polygons = pv.PolyData().from_irregular_faces(mesh.points, cells)
+            polygons.cell_data.update(mesh.cell_data)
+            polygons.user_dict.update(mesh.user_dict)
+            mesh = polygons.cast_to_unstructured_grid()
+            _ = mesh.set_active_scalars("CellGroup", preference="cell")
+
+        return mesh
 
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
-- 
2.43.0


From e9e3fd9e4970f024d2032632d3a6e7530fede938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:39 +0000
Subject: [PATCH 51/62] fix: keep far finite vertices of Voronoi regions on
 their ridges

---
 pvgridder/core/voronoi.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 69b9be6..c2548ab 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -592,7 +592,15 @@ class VoronoiMesh2D(MeshBase):
 
                     midpoint = voronoi.points[[p1, p2]].mean(axis=0)
                     direction = np.sign(np.dot(midpoint - center, n)) * n
-                    far_point = voronoi.vertices[v2] + direction * radius
+                    length = (
+                        min(
+                            radius,
+                            np.linalg.norm(voronoi.vertices[v1] - voronoi.vertices[v2]),
+                        )
+                        if v1 >= 0
+                        else radius
+                    )
+                    far_point = voronoi.vertices[v2] + direction * length
 
                     new_region.append(len(new_vertices))
                     new_vertices.append(far_point.tolist())
-- 
2.43.0


From a0a4fe333cfb28f5323d8c4a0ef9e4892b9431a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:39 +0000
Subject: [PATCH 52/62] fix: discard lines left by clipping Voronoi regions

---
 pvgridder/core/voronoi.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index c2548ab..338bf7e 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -359,7 +359,7 @@ class VoronoiMesh2D(MeshBase):
             2D Voronoi mesh.
 
         """
-        from shapely import Polygon, get_coordinates
+        from shapely import MultiPolygon, Polygon, get_coordinates
 
         from .. import (
             average_points,
@@ -479,6 +479,13 @@ class VoronoiMesh2D(MeshBase):
                 raise ValueError(f"region {i} is not a valid polygon")
 
             polygon = boundary.intersection(polygon)
+
+            # Discard lines along which the boundary follows the region
+            if polygon.geom_type == "GeometryCollection":
+                polygon = MultiPolygon(
+                    [geom for geom in polygon.geoms if geom.geom_type == "Polygon"]
+                )
+
             points_ = get_coordinates(polygon)[:-1]
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
-- 
2.43.0


From d713cd057e7cf288d88a275acc5c53993c6dc463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:13 +0000
Subject: [PATCH 53/62] fix: match polygonal faces whatever their first point
 when intersecting polylines

---
 pvgridder/utils/_misc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 9720784..f64e410 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -724,8 +724,6 @@ def intersect_polyline(
         Polydata containing the intersection points and cell IDs.
 
     """
-    from .. import get_cell_centers
-
     line_ = cast(pv.PolyData, line.strip(max_length=line.n_points))
     lines = split_lines(line_, as_lines=True)[0]
 
@@ -752,7 +750,11 @@ def intersect_polyline(
                 cell_ids.append(cell_id)
 
     cell_geometry = extract_cell_geometry(mesh, remove_ghost_cells=True)
-    tree = KDTree(get_cell_centers(cell_geometry))
+    geometry = cell_geometry.cast_to_unstructured_grid()
+    sums = np.add.reduceat(
+        geometry.points[geometry.cell_connectivity], geometry.offset[:-1], axis=0
+    )
+    tree = KDTree(sums / np.diff(geometry.offset)[:, None])
     boundary_ids = np.flatnonzero(
         (cell_geometry.cell_data["vtkOriginalCellIds"] < 0).any(axis=1)
     )
@@ -865,7 +867,7 @@ def intersect_polyline(
                     break
 
                 # Determine the exit cell
-                _, id_ = tree.query(exit_face.center)
+                _, id_ = tree.query(exit_face.points.mean(axis=0))
                 cells = cell_geometry.cell_data["vtkOriginalCellIds"][id_]
 
                 if cid not in cells:
-- 
2.43.0


From f3bb098c24792d021b519b03ed4cfd7a51975e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:59 +0000
Subject: [PATCH 54/62] fix: locate ends of polylines in polyhedra, not in
 their bounds

---
 pvgridder/utils/_misc.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f64e410..04235a5 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -689,6 +689,32 @@ def fuse_cells(
     return cast(pv.UnstructuredGrid, fused_mesh)
 
 
+def _find_containing_cell(mesh: pv.DataSet, point: ArrayLike) -> int:
+    """Find the cell containing a point (VTK only checks the bounds of polyhedra)."""
+    if (
+        not isinstance(mesh, pv.UnstructuredGrid)
+        or pv.CellType.POLYHEDRON not in mesh.celltypes
+    ):
+        return int(mesh.find_containing_cell(point))
+
+    for cid in mesh.find_cells_within_bounds(np.repeat(point, 2)):
+        cell = extract_cells(mesh, cid)
+
+        if mesh.celltypes[cid] == pv.CellType.POLYHEDRON:
+            enclosed = pv.PolyData(np.atleast_2d(point)).select_enclosed_points(
+                cell.extract_surface(), check_surface=False
+            )
+            found = enclosed.point_data["SelectedPoints"][0] > 0
+
+        else:
+            found = cell.find_containing_cell(point) > -1
+
+        if found:
+            return int(cid)
+
+    return -1
+
+
 def intersect_polyline(
     mesh: pv.DataSet,
     line: pv.PolyData,
@@ -763,7 +789,7 @@ def intersect_polyline(
     for lid, (pointa, pointb) in enumerate(zip(lines.points[:-1], lines.points[1:])):
         # Find the first cell intersected by the line
         if cell is None:
-            cid = mesh.find_containing_cell(pointa)
+            cid = _find_containing_cell(mesh, pointa)
 
             if cid < 0:
                 intersections = ray_cast(boundary, pointa, pointb, tolerance=tolerance)
@@ -806,8 +832,8 @@ def intersect_polyline(
                     if not mesh_entered:
                         mesh_entered = True
 
-                        if cell.find_containing_cell(pointb) > -1 and (
-                            cell.find_containing_cell(pointa) < 0
+                        if _find_containing_cell(cell, pointb) > -1 and (
+                            _find_containing_cell(cell, pointa) < 0
                             or np.allclose(pointa, point, atol=tolerance)
                         ):
                             count = len(points)
@@ -884,7 +910,10 @@ def intersect_polyline(
                 cell = extract_cells(mesh, cid)
 
                 # Add last point of the polyline if it is inside the exit cell
-                if lid == lines.n_lines - 1 and cell.find_containing_cell(pointb) > -1:
+                if (
+                    lid == lines.n_lines - 1
+                    and _find_containing_cell(cell, pointb) > -1
+                ):
                     add_point(pointb, lid, cid)
                     break
 
-- 
2.43.0


From 787046ad8a6c8428d4d228b172ee00e170b3d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:16 +0000
Subject: [PATCH 55/62] fix: report unsupported 3D cell types as
 NotImplementedError in extract_cell_geometry

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 04235a5..b11336d 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -472,7 +472,7 @@ def extract_cell_geometry(
 
                 else:
                     raise NotImplementedError(
-                        f"cells of type '{celltype.name}' are not supported yet"
+                        f"cells of type '{pv.CellType(celltype).name}' are not supported yet"
                     )
 
                 cell_faces.append(cell_face)
-- 
2.43.0


From a22a1a0bd8f43561c896d1c1d2c3788174f2e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 56/62] fix: refuse meshes made only of unsupported 3D cells
 with NotImplementedError in extract_cell_geometry

---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index b11336d..0759b28 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -438,7 +438,9 @@ def extract_cell_geometry(
 
     else:
         # Generate face data
-        if np.ptp(celltypes) == 0:
+        if np.ptp(celltypes) == 0 and (
+            celltypes[0] == pv.CellType.POLYHEDRON or celltypes[0] in _celltype_to_faces
+        ):
             celltype = celltypes[0]
             cell_faces = (
                 [
-- 
2.43.0


From 70505bcc3a8cb7ad7ee96513b0449de8f7f67658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:19 +0000
Subject: [PATCH 57/62] fix: keep faces normal to the ray in ray_cast

The cosine of the angle between a ray and the (single precision) normal of a
face may exceed one, in which case the angle was not a number and the face was
left out.
---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 0759b28..c2fbd1c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1281,7 +1281,7 @@ def ray_cast(
         normals = mesh.compute_normals(
             cell_normals=True, point_normals=False
         ).cell_data["Normals"]
-        angles = np.rad2deg(np.arccos(np.abs(normals[ids] @ dvec)))
+        angles = np.rad2deg(np.arccos(np.abs(normals[ids] @ dvec).clip(max=1.0)))
         ids = ids[angles < max_angle]
 
         if ids.size == 0:
-- 
2.43.0


From a29a7586a9344465047d4ef3c3c4f5fff91bffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:45 +0000
Subject: [PATCH 58/62] fix: interpolate points added to stacks far from the
 origin precisely

Points given as scattered data were triangulated with their raw
coordinates: with geographic coordinates, the triangulation of closely
spaced points is not precise, so that some points were left out of it
and elevations at these points were wrong.
---
 pvgridder/core/_base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 1cd81d5..800c110 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -546,8 +546,12 @@ class MeshStackBase(MeshBase):
         ]
 
         if len(idx) > 1:
-            interp = LinearNDInterpolator(points[:, idx], points[:, self.axis])
-            tmp = interp(mesh.points[:, idx])
+            # Triangulate close to the origin for precision
+            origin = points[:, idx].min(axis=0)
+            xp = points[:, idx] - origin
+            x = mesh.points[:, idx] - origin
+            interp = LinearNDInterpolator(xp, points[:, self.axis])
+            tmp = interp(x)
             mask = np.isnan(tmp)
 
             if mask.any():
@@ -557,8 +561,8 @@ class MeshStackBase(MeshBase):
                     )
 
                 elif extrapolation == "nearest":
-                    interp = NearestNDInterpolator(points[:, idx], points[:, self.axis])
-                    tmp[mask] = interp(mesh.points[mask][:, idx])
+                    interp = NearestNDInterpolator(xp, points[:, self.axis])
+                    tmp[mask] = interp(x[mask])
 
                 else:
                     raise ValueError(f"invalid extrapolation method '{extrapolation}'")
-- 
2.43.0


From 39a5df9fddcd275453b8b6c57b1c50b604b56b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:44 +0000
Subject: [PATCH 59/62] fix: keep double precision of curved and regular lines

PyVista builds lines in single precision, so that points of lines far from
the origin (geographic coordinates) were off by decimetres.
---
 pvgridder/core/geometric_objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 12cbfcb..ec73371 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -253,7 +253,9 @@ def CurvedLine(
         vec /= np.linalg.norm(vec)
         points.append(points[-1] + dl * vec)
 
-    mesh = pv.MultipleLines(np.asanyarray(points))
+    points = np.asanyarray(points)
+    mesh = pv.MultipleLines(points)
+    mesh.points = points
     mesh.clear_data()
 
     return mesh
@@ -878,6 +880,7 @@ def RegularLine(points: ArrayLike, resolution: Optional[int] = None) -> pv.PolyD
     x = np.linspace(0.0, xp.max(), resolution + 1)
     points = np.column_stack([np.interp(x, xp, fp) for fp in points.T])
     mesh = pv.MultipleLines(points)
+    mesh.points = points
     mesh.clear_data()
 
     return mesh
-- 
2.43.0


From 78bf56768d832632e18f06a237beaedfe2c2dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:44 +0000
Subject: [PATCH 60/62] fix: compute Voronoi diagrams far from the origin
 precisely

With geographic coordinates, Voronoi diagrams of closely spaced points were
wrong (overlapping cells): compute them close to the origin. The size of the
background mesh also depended on its position.
---
 pvgridder/core/voronoi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 338bf7e..b54106d 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -539,7 +539,7 @@ class VoronoiMesh2D(MeshBase):
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-        x, y = points.T
+        x, y = (points - points[0]).T
 
         return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
 
@@ -557,7 +557,9 @@ class VoronoiMesh2D(MeshBase):
         See <https://stackoverflow.com/a/43023639>.
 
         """
-        voronoi = Voronoi(points, qhull_options=qhull_options)
+        # Triangulate close to the origin for precision
+        origin = np.min(points, axis=0)
+        voronoi = Voronoi(points - origin, qhull_options=qhull_options)
 
         # Construct a map containing all ridges for a given point
         ridges = {}
@@ -570,7 +572,7 @@ class VoronoiMesh2D(MeshBase):
         # Vertices between aligned points are too far away to be accurate, so they are
         # considered to be at infinity as well
         center = voronoi.points.mean(axis=0)
-        limit = np.ptp(self.mesh.points).max() * 1.0e3
+        limit = np.ptp(self.mesh.points, axis=0).max() * 1.0e3
         radius = infinity if infinity else limit
         far = np.linalg.norm(voronoi.vertices - center, axis=1) > limit
         new_vertices = voronoi.vertices.tolist()
@@ -618,7 +620,7 @@ class VoronoiMesh2D(MeshBase):
                 angles = np.arctan2(vs[:, 1] - c[1], vs[:, 0] - c[0])
                 new_regions.append([new_region[i] for i in np.argsort(angles)])
 
-        return new_regions, np.array(new_vertices)
+        return new_regions, np.array(new_vertices) + origin
 
     @property
     def mesh(self) -> pv.DataSet:
-- 
2.43.0


From a05c3a5250201861dc1b5694f20a55abff6856d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:44 +0000
Subject: [PATCH 61/62] fix: keep double precision of polylines added to
 Voronoi meshes as arrays

---
 pvgridder/core/voronoi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index b54106d..b63729c 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -237,7 +237,9 @@ class VoronoiMesh2D(MeshBase):
         from .. import extract_cells, split_lines
 
         if not isinstance(mesh_or_points, pv.PolyData):
-            mesh = pv.MultipleLines(np.asanyarray(mesh_or_points))
+            points = np.asanyarray(mesh_or_points)
+            mesh = pv.MultipleLines(points)
+            mesh.points = points.astype(float)
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From a6a3044b2ec52aed0a553097e203ec263ec32441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:02 +0000
Subject: [PATCH 62/62] fix: keep items of builders independent of later
 changes to their arguments

---
 pvgridder/core/_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 800c110..d21e0c8 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import TYPE_CHECKING, Union, cast
 
 import numpy as np
@@ -46,7 +47,11 @@ class MeshItem:
         self._mesh = mesh
 
         for k, v in kwargs.items():
-            setattr(self, k, v)
+            # Item must not depend on later changes to input arrays and dictionaries
+            if isinstance(v, dict):
+                v = {kk: vv if callable(vv) else copy(vv) for kk, vv in v.items()}
+
+            setattr(self, k, copy(v))
 
     @property
     def mesh(self) -> pv.PolyData | pv.StructuredGrid | pv.UnstructuredGrid:
-- 
2.43.0

