From 32e6ab347c9777b7912a74dfd5117701b3bafb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/35] fix: use the dem size as neighbor fill index

UnstructuredGrid.ncpl is an array, so flow_directions() raised on every
unstructured grid.
---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..c53c63b 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -60,7 +60,7 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
-- 
2.43.0


From ec84e8653cb342c044a115455fa4003bf322d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 02/35] fix: reshape the segment array to the cell-layer shape
 on unstructured grids

---
 dany/stream_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..9c99f93 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -303,9 +303,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From e9b915ae35d72e9c33f316e3f8f2078dbf77f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 03/35] fix: fill_nan_values looped forever on cells with only
 nan neighbors

---
 dany/dem_conditioning.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..15efc1a 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -283,6 +283,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
+    nskipped = 0
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
     method = method.lower()
 
@@ -302,8 +303,14 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # no valid neighbors yet, revisit after the other nan cells
+            stack.insert(0, node)
+            nskipped += 1
+            if nskipped == len(stack):
+                # remaining nan cells are not connected to a valid cell
+                break
         else:
             filled_dem[node] = elev
+            nskipped = 0
 
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From 3e70c891870d03953281d8f6c5c47d690733312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 04/35] fix: recompute queen neighbors instead of using the
 grid's cached neighbors

flopy returns the cached neighbor dict regardless of the method argument,
so a grid that was queried with method='rook' before gave d4 results.
---
 dany/dem_conditioning.py | 4 ++--
 dany/flow_directions.py  | 4 +++-
 dany/stream_util.py      | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 15efc1a..de517fb 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -183,7 +183,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
         if pit:
@@ -284,7 +284,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
     nskipped = 0
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
 
     while stack:
diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index c53c63b..0a30831 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -34,7 +34,9 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(
+            modelgrid.neighbors(method="queen", reset=True)
+        )
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9c99f93..c9286ce 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -33,7 +33,9 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = modelgrid.neighbors(
+            method="queen", as_nodes=False, reset=True
+        )
         
     @property
     def stream_array(self):
-- 
2.43.0


From c1cd72dd721824e7aad0453d152beee4c82f3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/35] fix: drop the reversed flow directions when
 flow_directions() is called again

---
 dany/flow_directions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 0a30831..d1621ba 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -408,6 +408,7 @@ class FlowDirections:
 
         """
         self._threshold = burn_threshold
+        self._fdir_r = None
         self._fdir = np.full(self._dem.size - 1, -1)
         self._fdir[self._min_cell] = self._min_cell
         if terminal_cells:
-- 
2.43.0


From a337b700ded634062189587ba9b22a3dfe973750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 06/35] fix: get_subbasins accepts lists of geometry objects as
 documented

---
 dany/flow_directions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index d1621ba..54b20ac 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -573,12 +573,13 @@ class FlowDirections:
 
         if isinstance(points, (tuple, list, np.ndarray)):
             for point in points:
-                if len(point) != 2:
-                    raise AssertionError(
-                        "each point must be an interable with only x, y values"
-                    )
-        else:
-            points = GeoSpatialCollection(points, shapetype='point').points
+                if isinstance(point, (tuple, list, np.ndarray)):
+                    if len(point) != 2:
+                        raise AssertionError(
+                            "each point must be an interable with only x, y values"
+                        )
+
+        points = GeoSpatialCollection(points, shapetype='point').points
 
         cellids = []
         for point in points:
-- 
2.43.0


From f40a424f00e48e01319d72a5c854ade8b64aff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 07/35] fix: get_subbasins with a pour point in cell 0

---
 dany/flow_directions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 54b20ac..05a589c 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -611,13 +611,16 @@ class FlowDirections:
                     graph[current] = cellid
                     break
 
+        # Topology reserves 0, shift node numbers so that node 0 can be sorted
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            if cellid_to != -1:
+                cellid_to += 1
+            topo.add_connection(cellid + 1, cellid_to)
 
         topo.add_connection(-1, -1)
         solution_order = topo.sort()[:-1]
-        solution_idxs = [cellids.index(cellid) for cellid in solution_order]
+        solution_idxs = [cellids.index(cellid - 1) for cellid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
         for ix, point_idx in enumerate(solution_idxs):
-- 
2.43.0


From 01b854bdbbafab92162b80d082acdff5cf407a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 08/35] fix: flat resolution overwrote terminal cells

---
 dany/flow_directions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 05a589c..4407bd8 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -190,6 +190,7 @@ class FlowDirections:
         fcells = [
             list(np.where(slope == np.nanmin(slope))[0]) for slope in slopes
         ]
+        terminal = np.where(self._fdir != -1)[0]
         for ix, node in enumerate(self._fdir):
             if node != -1:
                 continue
@@ -325,6 +326,9 @@ class FlowDirections:
                     for node, (node_to, dist) in flow_trace.items():
                         self._fdir[node] = node_to
 
+        # flat resolution must not re-route flow out of a terminal cell
+        self._fdir[terminal] = terminal
+
     def _resolve_flats(self, cell, flow_to, dest):
         """
 
-- 
2.43.0


From 89d633717ae3722ca47aa12f9960b7c1176a5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 09/35] fix: route digitally flat cells that have a path to an
 outlet

Flat resolution left loops and -2 cells inside flats that drain, for
example [[0, 0, 0, -1], [0, 0, 0, 0]].
---
 dany/flow_directions.py | 42 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 4407bd8..9151443 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -328,6 +328,48 @@ class FlowDirections:
 
         # flat resolution must not re-route flow out of a terminal cell
         self._fdir[terminal] = terminal
+        self._route_undrained(slopes)
+
+    def _route_undrained(self, slopes):
+        """
+        Method to re-route cells that flat resolution left in a loop or without
+        a destination even though a non-ascending path to an outlet exists.
+        Flow paths are extended upstream from the cells that do drain, and
+        always follow one of the minimum slopes of the re-routed cell.
+
+        Parameters
+        ----------
+        slopes : np.ndarray
+            uniform numpy array of neighboring slopes
+
+        """
+        nodes_up = defaultdict(list)
+        candidates = defaultdict(list)
+        drained = []
+        for node, slope in enumerate(slopes):
+            nodes_up[self._fdir[node]].append(node)
+            min_slope = np.nanmin(slope)
+            if self._fdir[node] == node or min_slope > 0:
+                # outlets and pits
+                drained.append(node)
+            else:
+                for node_to in self._fneighbors[node, slope == min_slope]:
+                    candidates[node_to].append(node)
+
+        is_drained = np.zeros(self._fdir.size, dtype=bool)
+        is_drained[drained] = True
+        for node in drained:
+            for node_up in nodes_up[node]:
+                if not is_drained[node_up]:
+                    is_drained[node_up] = True
+                    drained.append(node_up)
+
+        for node in drained:
+            for node_up in candidates[node]:
+                if not is_drained[node_up]:
+                    self._fdir[node_up] = node
+                    is_drained[node_up] = True
+                    drained.append(node_up)
 
     def _resolve_flats(self, cell, flow_to, dest):
         """
-- 
2.43.0


From 6ad9379ea5e313901e64a491b003bed5dec080b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 10/35] fix: nan cells broke the elevation order of the
 priority flood

Comparisons with nan corrupt the heap, and cells next to no-data cells
were filled above their spill elevation.
---
 dany/dem_conditioning.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index de517fb..c8ac5eb 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -183,6 +183,22 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
+
+    # nan elevations cannot be ordered in the heap, no-data cells are open
+    # edges that the flood starts from
+    nan_nodes = np.where(np.isnan(newdem))[0]
+    open = [item for item in open if not np.isnan(item[0])]
+    open += [(-np.inf, n) for n in nan_nodes]
+    heapq.heapify(open)
+    closed[nan_nodes] = True
+
+    # nan elevations cannot be ordered in the heap, no-data cells are open
+    # edges that the flood starts from
+    nan_nodes = np.where(np.isnan(newdem))[0]
+    open = [item for item in open if not np.isnan(item[0])]
+    open += [(-np.inf, n) for n in nan_nodes]
+    heapq.heapify(open)
+    closed[nan_nodes] = True
     neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
-- 
2.43.0


From a90317fa11dcb0f5a6fbe6c26b0daed85a583f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 11/35] fix: topological sort hit the recursion limit on long
 streams

---
 dany/stream_util.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c9286ce..afa5100 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1433,8 +1433,9 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
-        sort to perform sorting
+        Function used by topological sort to
+        perform sorting, walks downstream to the first
+        visited segment and then unwinds
 
         Parameters
         ----------
@@ -1446,21 +1447,26 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
+        path = []
+        while True:
+            visited[seg] = True
+            if seg == 0:
+                ioutseg = 0
+            else:
+                ioutseg = self.topology[seg]
 
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
+            path.append((seg, ioutseg))
+            if visited[ioutseg]:
+                break
+            seg = ioutseg
 
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        for seg, ioutseg in reversed(path):
+            if seg == 0:
+                pass
+            elif ioutseg == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From d0732cea7655300d401bff549ad374398655ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/35] fix: assign a segment to isolated terminal stream cells

---
 dany/stream_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index afa5100..f95fd1c 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -231,6 +231,12 @@ class StreamBase:
                         segstrts[node] = iseg
                         iseg += 1
 
+            # isolated stream cells that terminate in themselves
+            for node, dnnode in graph.items():
+                if node == dnnode and node not in segstrts:
+                    segstrts[node] = iseg
+                    iseg += 1
+
             # node, seg, rch --->??
             # segmap --->?
             nd_seg_rch = []
-- 
2.43.0


From 9d41482812a042121767cde7aa65f30eef134e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 13/35] fix: reach_data looked up the downstream segment by
 column number

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f95fd1c..c27aebc 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -820,12 +820,12 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
+                iseg = rec[4]
                 if iseg not in self._seg_graph:
                     downreach = 0
                 else:
                     outseg = self._seg_graph[iseg]
-                    downreach = seg_rid_lut[outseg]
+                    downreach = seg_rid_lut.get(outseg, 0)
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-- 
2.43.0


From b7ce929393f1fb60aeaf2adef5fe4d05ea7f39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 14/35] fix: keyword defaults of
 Sfr2005.get_pygsflow_builder_object raised

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c27aebc..b900ff5 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1012,7 +1012,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
-- 
2.43.0


From a433b4622e6294a6cec4ee9602e3ee176688ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 15/35] fix: pygsflow reach slopes were relative to the last
 reach

outreach is always 0 in reach_data, so index -1 was used as the
downstream reach of every reach.
---
 dany/stream_util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b900ff5..7f432a9 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1039,13 +1039,18 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._modelgrid.top.ravel()
+            # outreach is not set in reach_data, route by segment and reach
+            outsegs = dict(zip(segment_data["nseg"], segment_data["outseg"]))
+            rch_node = {
+                (rec["iseg"], rec["ireach"]): rec["node"] for rec in reach_data
+            }
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
-                rec_dn_ix = rec["outreach"] - 1
-                if rec_dn_ix >= len(reach_data):
-                    node_dn = rec["node"]
+                iseg, ireach = rec["iseg"], rec["ireach"]
+                if (iseg, ireach + 1) in rch_node:
+                    node_dn = rch_node[(iseg, ireach + 1)]
                 else:
-                    node_dn = reach_data[rec_dn_ix]["node"]
+                    node_dn = rch_node.get((outsegs.get(iseg), 1), node)
 
                 strtop = dem[node]
                 strtop_dn = dem[node_dn]
-- 
2.43.0


From c3bac8da9931f71e93fc57c2c92b56846c168477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 16/35] fix: drop the stream connectivity of a replaced stream
 array

---
 dany/stream_util.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 7f432a9..01fa1c9 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -75,6 +75,16 @@ class StreamBase:
             )
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_connectivity()
+
+    def _reset_connectivity(self):
+        """
+        Method to drop connectivity that was mapped for a previous stream array
+
+        """
+        self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -106,6 +116,7 @@ class StreamBase:
             stream_array[basin_boundary.ravel() == 0] = 0
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_connectivity()
         return self._stream_array
 
     def _mf6_stream_connectivity(self, stream_array=None):
-- 
2.43.0


From 5c5f12cd63fbf01f13a59c7fb7fabd828452f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 17/35] fix: packagedata(stream_array) used the unnumbered
 array

---
 dany/stream_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 01fa1c9..b6cbfe6 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -584,11 +584,10 @@ class Sfr6(StreamBase):
                     graph = self._mf6_stream_connectivity()
             else:
                 graph = self._graph
-            stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
 
-        stream_array = stream_array.ravel()
+        stream_array = self.stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
-- 
2.43.0


From 0e6f8cf6b7f897aaff7142ba9b443450b85f35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 18/35] fix: irunbnd of upstream cells was overwritten by
 downstream segments

---
 dany/stream_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b6cbfe6..78db00f 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -937,6 +937,9 @@ class Sfr2005(StreamBase):
         stream_array = stream_array.copy().ravel()
         stream_cells = np.where((stream_array > 0) & (~np.isnan(stream_array)))[0]
 
+        is_stream = np.zeros(stream_array.size, dtype=bool)
+        is_stream[stream_cells] = True
+
         # make a dict of reversed flow directions
         fdir_r = {}
         for node, dnnode in enumerate(self._fdir.ravel()):
@@ -961,7 +964,8 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                # upstream stream cells are routed to their own segment
+                upnodes = [n for n in fdir_r[node] if not is_stream[n]]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From fbad22d85873a1be3dccf19a8747f7cf636959c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 19/35] fix: many to one cascades linked an outlet to a cell
 outside of the basin

---
 dany/stream_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 78db00f..7d8e626 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1264,12 +1264,12 @@ class PrmsStreams(StreamBase):
             if len(idxs) == 0:
                 continue
 
+            hru_up = list(idxs)
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
-
-            hru_up = list(idxs)
-            hru_down = [hru_down,] * len(hru_up)
+                hru_down = list(idxs)
+            else:
+                hru_down = [hru_down,] * len(hru_up)
             hru_pct = [1.0,] * len(hru_up)
 
             hru_up_id.extend(hru_up)
-- 
2.43.0


From 4994adb3f3fe5f80a95ad7c5bc355b828e180c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 20/35] fix: many to many cascades left the basin

Inactive cells are flagged with -9, and 0 is a valid flow direction.
---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 7d8e626..c2f6eea 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1346,7 +1346,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From e8b1d3868310dfbc6b343179af0a5c700efe2416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 21/35] fix: number reaches and segments of boolean stream
 arrays

---
 dany/stream_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c2f6eea..118576f 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -146,6 +146,9 @@ class StreamBase:
 
         stream_array = stream_array.copy().ravel()
         strm_nodes = np.where(stream_array)[0]
+        # boolean and small integer arrays can not hold reach numbers
+        stream_array = np.zeros(stream_array.size, dtype=int)
+        stream_array[strm_nodes] = 1
 
         # assign an initial reach number to stream cells
         for i in range(1, len(strm_nodes) + 1):
@@ -216,6 +219,9 @@ class StreamBase:
         # 1a) create graph of connectivity via node numbers...
         stream_array = stream_array.copy().ravel()
         strm_nodes = np.where(stream_array)[0]
+        # boolean and small integer arrays can not hold reach numbers
+        stream_array = np.zeros(stream_array.size, dtype=int)
+        stream_array[strm_nodes] = 1
 
         graph = {}
         for node in strm_nodes:
-- 
2.43.0


From 973e56106eca8478488ce8376b8124f9c0dc5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 22/35] fix: threshold_from_control_points did not return on
 circular flow directions

---
 dany/stream_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 118576f..5afb04a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -457,8 +457,13 @@ class StreamBase:
         array = np.full(self._facc.shape, threshold).ravel()
         for node in cellids:
             stack = [node]
+            visited = set()
             while stack:
                 node = stack.pop(0)
+                if node in visited:
+                    # circular flow directions
+                    break
+                visited.add(node)
                 neighs = self._neighbors[node]
                 array[node] = self._facc[node] - 5
                 flows_in = []
-- 
2.43.0


From 036307c7ca65d9064c57cd9ff7fa11a668b8a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 23/35] fix: create_stream_vectors replaced the stored stream
 connectivity

connectiondata(), packagedata() and get_cascades() used the segment graph
of the vectors when they were called after create_stream_vectors().
---
 dany/stream_util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 5afb04a..2d72e89 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -360,6 +360,14 @@ class StreamBase:
         if stream_array is not None:
             stream_array = stream_array.copy()
             stream_array[np.isnan(stream_array)] = 0
+            if self._stream_array is None:
+                self.set_stream_array(stream_array)
+
+        # the segments of the vectors do not replace the stored connectivity
+        state = {
+            k: getattr(self, k, None)
+            for k in ("_stream_array", "_graph", "_seg_graph", "_node_seg_rch")
+        }
         seg_graph = self._mf2005_stream_connectivity(
             stream_array, group_segments=group_segments
         )
@@ -374,6 +382,7 @@ class StreamBase:
         processed = []
         stack = []
         nsr = self._node_seg_rch.copy()
+        self.__dict__.update(state)
         while headwaters or stack:
             if stack:
                 seg = stack.pop(0)
-- 
2.43.0


From 3b89763059f4277df941672a0fadbd4ffaa319a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 24/35] fix: use the numbered streams when a stream array is
 passed again

get_cascades(), irunbnd(), reach_data() and segment_data() took the values
of a binary stream array as segment numbers, or ignored the array, once
connectivity existed.
---
 dany/stream_util.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 2d72e89..9060781 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -86,6 +86,18 @@ class StreamBase:
         self._seg_graph = None
         self._node_seg_rch = None
 
+    def _has_connectivity(self, stream_array):
+        """
+        Method to check if the stored connectivity was mapped for the stream
+        cells in stream_array
+
+        """
+        if self._graph is None:
+            return False
+        return np.array_equal(
+            np.ravel(stream_array) != 0, np.ravel(self._stream_array) != 0
+        )
+
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
         Method to binarize flow accumulation by a contributing area
@@ -786,7 +798,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if not self._has_connectivity(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -902,7 +914,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if not self._has_connectivity(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -946,13 +958,13 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if not self._has_connectivity(stream_array):
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
                     group_segments=group_segments
                 )
-                stream_array = self._stream_array
+            stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
         stream_cells = np.where((stream_array > 0) & (~np.isnan(stream_array)))[0]
@@ -1211,12 +1223,11 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None:
+        if not self._has_connectivity(stream_array):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
-            stream_array = self.stream_array
 
-        stream_array = stream_array.copy().ravel()
+        stream_array = self.stream_array.ravel()
 
         if not many2many:
             hru_up_id, hru_down_id, hru_pct_up = \
-- 
2.43.0


From 6bfe7c6da1693f49c09a7bfdde54055caa504b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 25/35] fix: epsilon fill was lost on integer and single
 precision elevations

---
 dany/dem_conditioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index c8ac5eb..5051d37 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -171,7 +171,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     """
     import heapq
-    newdem = dem.ravel().copy()
+    newdem = dem.ravel().astype(float)
 
     if isinstance(seed, int):
         seed = [seed]
-- 
2.43.0


From cc1a498f79ddcb61e1a31edbd21e7a6d10ed3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 26/35] fix: cells with only no-data neighbors flowed to a fill
 index

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 9151443..d790f62 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -195,7 +195,8 @@ class FlowDirections:
             if node != -1:
                 continue
 
-            if np.isnan(self._dem[ix]):
+            if np.isnan(self._dem[ix]) or not np.any(slopes[ix] < 1e+10):
+                # no-data cells and cells that only have no-data neighbors
                 self._fdir[ix] = ix
                 continue
 
-- 
2.43.0


From fcb9ad0298fbf9c583d792b3a6719076e3d16b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 27/35] fix: cells above a closed flat were flagged as sinks

---
 dany/flow_directions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index d790f62..d3ba4d4 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -372,6 +372,11 @@ class FlowDirections:
                     is_drained[node_up] = True
                     drained.append(node_up)
 
+        # only the cells of a closed flat are sinks, not the cells above it
+        for node in np.where(self._fdir == -2)[0]:
+            if np.nanmin(slopes[node]) < 0:
+                self._fdir[node] = self._fneighbors[node, np.nanargmin(slopes[node])]
+
     def _resolve_flats(self, cell, flow_to, dest):
         """
 
-- 
2.43.0


From 7f32801ed7dd933aa9356d03a6a71346bd47b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 28/35] fix: seed the priority flood with no-data cells once

---
 dany/dem_conditioning.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 5051d37..c4aa06e 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -184,14 +184,6 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
 
-    # nan elevations cannot be ordered in the heap, no-data cells are open
-    # edges that the flood starts from
-    nan_nodes = np.where(np.isnan(newdem))[0]
-    open = [item for item in open if not np.isnan(item[0])]
-    open += [(-np.inf, n) for n in nan_nodes]
-    heapq.heapify(open)
-    closed[nan_nodes] = True
-
     # nan elevations cannot be ordered in the heap, no-data cells are open
     # edges that the flood starts from
     nan_nodes = np.where(np.isnan(newdem))[0]
-- 
2.43.0


From 08b3bbeb2d54069b240e1bc16e154d7676f5c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 29/35] fix: closed flats flowed to the cell number -2

---
 dany/flow_directions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index d3ba4d4..2821174 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -376,6 +376,9 @@ class FlowDirections:
         for node in np.where(self._fdir == -2)[0]:
             if np.nanmin(slopes[node]) < 0:
                 self._fdir[node] = self._fneighbors[node, np.nanargmin(slopes[node])]
+            else:
+                # flow ends in the sink, -2 is not a cell number
+                self._fdir[node] = node
 
     def _resolve_flats(self, cell, flow_to, dest):
         """
-- 
2.43.0


From d662cdeeabd632425f774b289902ec1361aef68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 30/35] fix: stream cells on circular flow directions had no
 segment

---
 dany/stream_util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9060781..3a27ab4 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -260,11 +260,16 @@ class StreamBase:
                         segstrts[node] = iseg
                         iseg += 1
 
-            # isolated stream cells that terminate in themselves
-            for node, dnnode in graph.items():
-                if node == dnnode and node not in segstrts:
+            # stream cells that are not downstream of a start: isolated cells
+            # that terminate in themselves and circular flow directions
+            visited = set()
+            for node in list(segstrts) + nodesup:
+                if node not in segstrts and node not in visited:
                     segstrts[node] = iseg
                     iseg += 1
+                while node is not None and node not in visited:
+                    visited.add(node)
+                    node = graph[node]
 
             # node, seg, rch --->??
             # segmap --->?
-- 
2.43.0


From 4eea1fda1a3e77d9330c2d15e1ff5ac6e873f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 31/35] fix: Sfr2005.get_pygsflow_builder_object edited the
 records passed

---
 dany/stream_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3a27ab4..a6e3443 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1083,6 +1083,9 @@ class Sfr2005(StreamBase):
             irunbnd = self.irunbnd(group_segments=group_segments)
 
         if apply_defaults:
+            # do not edit the records passed by the user
+            reach_data = reach_data.copy()
+            segment_data = segment_data.copy()
             pgs_defaults = defaults["pgs_defaults"]
             reach_defaults = defaults["reach"]
 
-- 
2.43.0


From 50b50e752b9ff86310246fe81876c90d37161449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 32/35] fix: nan values of stream arrays were numbered as
 streams

---
 dany/stream_util.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index a6e3443..26b83f5 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -95,9 +95,18 @@ class StreamBase:
         if self._graph is None:
             return False
         return np.array_equal(
-            np.ravel(stream_array) != 0, np.ravel(self._stream_array) != 0
+            self._is_stream(stream_array), self._is_stream(self._stream_array)
         )
 
+    @staticmethod
+    def _is_stream(stream_array):
+        """
+        Method to get a flat boolean array of stream cells, nan is land
+
+        """
+        stream_array = np.ravel(stream_array)
+        return (stream_array != 0) & ~np.isnan(stream_array)
+
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
         Method to binarize flow accumulation by a contributing area
@@ -157,7 +166,7 @@ class StreamBase:
             stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(self._is_stream(stream_array))[0]
         # boolean and small integer arrays can not hold reach numbers
         stream_array = np.zeros(stream_array.size, dtype=int)
         stream_array[strm_nodes] = 1
@@ -230,7 +239,7 @@ class StreamBase:
 
         # 1a) create graph of connectivity via node numbers...
         stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(self._is_stream(stream_array))[0]
         # boolean and small integer arrays can not hold reach numbers
         stream_array = np.zeros(stream_array.size, dtype=int)
         stream_array[strm_nodes] = 1
@@ -1449,7 +1458,7 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array.ravel()
 
-        nreaches = np.count_nonzero(stream_array)
+        nreaches = np.count_nonzero(self._is_stream(stream_array))
         nsegments = len(strm_conn)
 
         return PygsflowCascades(
-- 
2.43.0


From ed2e52596ec8c99d39c5c412aa16a56e519871ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 33/35] fix: packagedata(detuple=True) failed without stream
 cells

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 26b83f5..b596c2c 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -718,9 +718,9 @@ class Sfr6(StreamBase):
 
         """
         odtype = recarray.dtype.descr
-        if len(recarray["cellid"][0]) == 3:
+        if self._modelgrid.grid_type == "structured":
             cellid = [("k", int), ("i", int), ("j", int)]
-        elif len(recarray["cellid"][0]) == 2:
+        elif self._modelgrid.grid_type == "vertex":
             cellid = [("k", int), ("node", int)]
         else:
             cellid = [("node", int),]
-- 
2.43.0


From dcc716fe3b11e72f1146400ad16ebee324d69e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 34/35] fix: reach_data failed without stream cells

---
 dany/stream_util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b596c2c..bc6fe21 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -885,9 +885,12 @@ class Sfr2005(StreamBase):
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-        basic_rec = np.array(basic_rec).T
-
         reach_data = ModflowSfr2.get_empty_reach_data(nreaches=nreach)
+        if nreach == 0:
+            # no stream cells
+            return reach_data
+
+        basic_rec = np.array(basic_rec).T
         reach_data["node"] = basic_rec[0]
         reach_data["k"] = basic_rec[1]
         reach_data["i"] = basic_rec[2]
-- 
2.43.0


From 0e24c9a9d246e841697e94b5f273196ebb868fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 35/35] fix: rejected terminal cells dropped the flow
 directions

---
 dany/flow_directions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 2821174..a3eb113 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -462,10 +462,8 @@ class FlowDirections:
             numpy array of cell numbers that each individual cell flows to
 
         """
-        self._threshold = burn_threshold
-        self._fdir_r = None
-        self._fdir = np.full(self._dem.size - 1, -1)
-        self._fdir[self._min_cell] = self._min_cell
+        fdir = np.full(self._dem.size - 1, -1)
+        fdir[self._min_cell] = self._min_cell
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
                 if self._modelgrid.grid_type == "structured":
@@ -478,8 +476,12 @@ class FlowDirections:
                 nodes = terminal_cells
 
             for tc in nodes:
-                self._fdir[tc] = tc
+                fdir[tc] = tc
 
+        # invalid terminal cells must not drop existing flow directions
+        self._threshold = burn_threshold
+        self._fdir_r = None
+        self._fdir = fdir
         self._fill_irregular_neighbor_array()
         slopes = self._calculate_slopes()
         self._calculate_flowcell(slopes)
-- 
2.43.0

