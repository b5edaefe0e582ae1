From 8e63580eeb473526782dc6d3e549ca35cb0146e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 001/137] fix: keep entities of a region with a kind lower than
 its definition

---
 sfepy/discrete/common/region.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index bd8f097..94e6b15 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -281,12 +281,22 @@ class Region(Struct):
             self.can_edges = can[1]
             self.can_faces = can[2]
 
+        self.set_kind_tdim()
+
+        # Keep a definition given only by entities the kind does not allow.
+        defined = [ii for ii, ents in enumerate(self.entities)
+                   if (ents is not None) and len(ents)]
+        if (len(defined) and not any(self.can[ii] for ii in defined)
+            and (defined[-1] > self.kind_tdim)):
+            idim, dim = defined[-1], self.kind_tdim
+            self.cmesh.setup_connectivity(idim, dim)
+            incident = self.cmesh.get_incident(dim, self.entities[idim], idim)
+            self.entities[dim] = nm.unique(incident)
+
         for ii, ican in enumerate(self.can):
             if not ican:
                 self.entities[ii] = nm.empty(0, dtype=nm.uint32)
 
-        self.set_kind_tdim()
-
     def set_kind_tdim(self):
         if 'vertex' in self.true_kind:
             self.kind_tdim = 0
-- 
2.43.0


From f6498a7b2dfa6ef4fdf286dee01f9521f19482df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 002/137] fix: parse parenthesized coordinate relations inside
 region expressions

---
 sfepy/discrete/parse_regions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/parse_regions.py b/sfepy/discrete/parse_regions.py
index 72f2d3f..65cac03 100644
--- a/sfepy/discrete/parse_regions.py
+++ b/sfepy/discrete/parse_regions.py
@@ -141,12 +141,12 @@ def create_bnf(stack):
     coor = oneOf('x y z')
     boolop = oneOf('& |')
     relop = oneOf('< > <= >= != ==')
-    bool_term = (ZeroOrMore('(') + (coor | fnumber) + relop + (coor | fnumber)
-                 + ZeroOrMore(')'))
+    bool_term = (coor | fnumber) + relop + (coor | fnumber)
     relation = Forward()
-    relation << (ZeroOrMore('(')
-                 + bool_term + ZeroOrMore(boolop + relation)
-                 + ZeroOrMore(')'))
+    # Parentheses have to be balanced in order not to consume those of an
+    # enclosing region expression.
+    factor = bool_term | (Literal('(') + relation + Literal(')'))
+    relation << factor + ZeroOrMore(boolop + factor)
     relation = Group(relation).setParseAction(join_tokens)
 
     nos = Group(vertices + _of + surface).setParseAction(replace('E_VOS'))
-- 
2.43.0


From 76f35728d66750b17e28997ddea0bdf687bc519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 003/137] fix: compare times in TimeStepper.__eq__()

---
 sfepy/solvers/ts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 4b1f50a..d44f6cf 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -111,8 +111,8 @@ class TimeStepper(Struct):
     def __eq__(self, other):
 
         if type(other) == type(self):
-            return (abs(self.t0 == other.t0) < 1e-15) and \
-                   (abs(self.t1 == other.t1) < 1e-15) and \
+            return (abs(self.t0 - other.t0) < 1e-15) and \
+                   (abs(self.t1 - other.t1) < 1e-15) and \
                    (self.n_step == other.n_step)
         else:
             raise ValueError
-- 
2.43.0


From 9f0ad6b73c04bb0412ba0dc3b38e9e11ef50ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 004/137] fix: find cell indices of regions with unsorted
 incident cells

---
 sfepy/discrete/common/region.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index 94e6b15..1ade82f 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -645,7 +645,9 @@ class Region(Struct):
         if not iin.all():
             raise ValueError(f'some cells are not in region {self.name} cells!')
 
-        iis = nm.searchsorted(fcells, cells)
+        # The cells incident to facets need not be sorted.
+        order = nm.argsort(fcells, kind='stable')
+        iis = order[nm.searchsorted(fcells, cells, sorter=order)]
         assert_((fcells[iis[iin]] == cells[iin]).all())
 
         ii = nm.where(iin, iis, -1)
-- 
2.43.0


From 86f9409de43d169fd3b07dcfe1b47a0878ca9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 005/137] fix: substitute DOFs on hanging edges without or
 before hanging faces

---
 sfepy/discrete/fem/fields_nodal.py   |  6 ++++--
 sfepy/discrete/fem/refine_hanging.py | 17 +++++------------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index ef2ed5a..58b7358 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -194,12 +194,13 @@ class H1NodalMixin(H1Mixin, GlobalNodalLikeBasis):
 
                 return key
 
+            gedges = self.gel.edges
+
             if subs[0] is not None:
                 ef = self.efaces
                 epf = self.gel.get_edges_per_face()
                 nde = self.node_desc.edge
                 ndf = self.node_desc.face
-                gedges = self.gel.edges
                 gfaces = self.gel.faces
 
                 for ii, sub in enumerate(subs[0]):
@@ -327,7 +328,8 @@ class H1NodalMixin(H1Mixin, GlobalNodalLikeBasis):
             fsubs = subs[0]
             esubs = subs[1]
 
-            assign_transform(transform, bf, fsubs, rffield.efaces)
+            if fsubs is not None:
+                assign_transform(transform, bf, fsubs, rffield.efaces)
             if esubs is not None:
                 assign_transform(transform, bf, esubs, rffield.eedges)
 
diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index 3106b19..3fe5204 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -313,20 +313,13 @@ def refine(domain0, refine, subs=None, ret_sub_cells=False):
         subs1e = find_facet_substitutions(facets[oe:], cells[oe:],
                                           sub_cells, refine_edges_3_8)
 
-        if subs is None:
-            subs = (subs1f if len(subs1f) else None,
-                    subs1e if len(subs1f) else None) # !!!
-
-        elif len(subs1f):
-            subsf, subse = subs
-
-            subsf = nm.r_[subsf, subs1f]
+        def _append(old, new):
+            if not len(new): return old
 
-            if len(subse):
-                if len(subs1e):
-                    subse = nm.r_[subse, subs1e]
+            return new if old is None else nm.r_[old, new]
 
-            subs = (subsf, subse)
+        subsf, subse = (None, None) if subs is None else subs
+        subs = (_append(subsf, subs1f), _append(subse, subs1e))
 
         if (isinstance(subs, tuple)
             and (subs[0] is None) and (subs[1] is None)): subs = None
-- 
2.43.0


From dc852531515d3c0b315fcc8197626e99164eeff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 006/137] fix: keep the centre of cylinder meshes along other
 than x axis

---
 sfepy/mesh/mesh_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index d6490cd..1c231ef 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -179,7 +179,7 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
         nl = 1
         is_2d_topo = True
 
-    origin = centre - nm.array([0.5 * length, 0.0, 0.0])
+    origin = nm.array([-0.5 * length, 0.0, 0.0])
 
     dfi = 2.0 * (nm.pi - open_angle) / nfi
     if is_open:
@@ -286,6 +286,7 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
         coors = coors[:,[1,2,0]]
     elif axis == 'y':
         coors = coors[:,[2,0,1]]
+    coors = coors + centre[:coors.shape[1]]
 
     mesh = Mesh.from_data(name, coors, None, [conn], [mat_id], [desc])
     return mesh
-- 
2.43.0


From c29df2024b32d90095fb975c5d1fca103ce17334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 007/137] fix: generate meshes from non-square voxel matrices

---
 sfepy/mesh/mesh_generators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index 1c231ef..c3efb36 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -758,6 +758,8 @@ def gen_mesh_from_voxels(voxels, dims, etype='q'):
     dims = nm.array(dims).squeeze()
     dim = len(dims)
     nddims = nm.array(voxels.shape) + 2
+    # Voxels are indexed by (y, x[, z]), nodes by (x, y[, z]).
+    nddims[:2] = nddims[1::-1]
 
     nodemtx = nm.zeros(nddims, dtype=nm.int32)
 
-- 
2.43.0


From 09ea680848d362d685e6f1fbe822183e86e2cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 008/137] fix: cell groups of tetrahedra in extruded mixed
 meshes

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 2c1ef9f..85f7e5a 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -688,7 +688,7 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
                     econns1[1::3] = econns[:, [0, 1, 5, 4]]
                     econns1[2::3] = econns[:, [0, 4, 5, 3]]
                     econns = econns1
-                    emat_ids = nm.repeat(mat_ids, 3)
+                    emat_ids = nm.repeat(emat_ids, 3)
 
             new_conns.append(econns)
             new_mat_ids.append(emat_ids)
-- 
2.43.0


From dee229d3df18f36c023a2f604cb5ddd5324ef238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 009/137] fix: get_cell_vertices_only() for meshes with several
 cell kinds

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 85f7e5a..7f0c3b9 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -449,7 +449,7 @@ def get_cell_vertices_only(mesh):
         FE mesh
     """
     data = list(mesh._get_io_data())
-    vertices = nm.unique([nm.unique(conn.ravel()) for conn in data[2]])
+    vertices = nm.unique(nm.concatenate([conn.ravel() for conn in data[2]]))
 
     remap = prepare_translate(vertices, nm.arange(len(vertices)))
 
-- 
2.43.0


From 4e4e2f7d19538dbfddfc2cca041c3509bfd7692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 010/137] fix: volume correction in smooth_mesh()

---
 sfepy/mesh/mesh_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 7f0c3b9..5f8a084 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -151,7 +151,7 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
         mtx[:,:,:-1] = nd[el,:]
         vols = mul * dets_fast(mtx)
         vol = vols.sum()
-        bc = nm.dot(vols, mtx.sum(1)[:,:-1] / nnd)
+        bc = nm.dot(vols, mtx.sum(1)[:,:-1] / (dim + 1))
 
         bc /= vol
 
@@ -208,10 +208,11 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
     if volume_corr:
         output('rescaling...')
         timer.start()
-        volume0, bc = get_volume(mesh.conns[0], mesh.coors)
-        volume, _ = get_volume(mesh.conns[0], coors)
+        conn = mesh.get_conn(mesh.descs[0])
+        volume0, bc = get_volume(conn, mesh.coors)
+        volume, _ = get_volume(conn, coors)
 
-        scale = volume0 / volume
+        scale = (volume0 / volume)**(1.0 / mesh.dim)
         output('scale factor: %.2f' % scale)
 
         coors = (coors - bc) * scale + bc
-- 
2.43.0


From 97669b71fec5338850f9e5b5eb5f9098d061d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 011/137] fix: normalize the direction of the revolution axis

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 5f8a084..0408eff 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -801,7 +801,7 @@ def revolve(mesh, nphi, p, v=(1, 0, 0), phi_max=None, wedge_to_tetra=True):
         phi = nm.linspace(0, nm.deg2rad(phi_max), nphi + 1)
 
     p = nm.array(p)[None, :]
-    v = nm.array(v)
+    v = nm.array(v) / nm.linalg.norm(v)
 
     coors = mesh.coors
     ccoor = nm.mean(coors, axis=0)
-- 
2.43.0


From 2d5909e365b28740dc26e6b827a56c50784ca0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 012/137] fix: split wedges to conforming tetrahedra in
 extrude()

---
 sfepy/mesh/mesh_tools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 0408eff..d015cde 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -685,9 +685,17 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
                 if wedge_to_tetra:  # wedges -> 3 x tetrahedron
                     econns1 = nm.empty((3* econns.shape[0], 4),
                                        dtype=econns.dtype)
+                    # Order by the vertex numbers to split the faces shared by
+                    # two wedges in the same way.
+                    order = nm.argsort(conns, axis=1)
+                    order = nm.hstack([order, order + 3])
+                    econns = nm.take_along_axis(econns, order, axis=1)
+                    odd = ((order[:, 1] - order[:, 0]) % 3) != 1
                     econns1[0::3] = econns[:, [0, 1, 2, 5]]
                     econns1[1::3] = econns[:, [0, 1, 5, 4]]
                     econns1[2::3] = econns[:, [0, 4, 5, 3]]
+                    odd = nm.repeat(odd, 3)
+                    econns1[odd] = econns1[odd][:, [1, 0, 2, 3]]
                     econns = econns1
                     emat_ids = nm.repeat(emat_ids, 3)
 
-- 
2.43.0


From 5f3fc716cb61ecb682e7d9c40fdf57dcd3e81b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 013/137] fix: fix_double_nodes() with more than two coinciding
 nodes

---
 sfepy/discrete/fem/mesh.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 5878863..0e45243 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -82,23 +82,21 @@ def fix_double_nodes(coor, ngroups, conns):
     The double nodes are nodes having the same coordinates
     w.r.t. precision given by `eps`.
     """
-    n_nod, dim = coor.shape
+    dim = coor.shape[1]
     cmap = find_map(coor, nm.zeros((0,dim)), allow_double=True)
     if cmap.size:
         output('double nodes in input mesh!')
         output('trying to fix...')
 
         while cmap.size:
-            # Just like in Variable.equation_mapping()...
-            ii = nm.argsort(cmap[:,1])
-            scmap = cmap[ii]
-
-            eq = nm.arange(n_nod)
-            eq[scmap[:,1]] = -1
-            eqi = eq[eq >= 0]
-            eq[eqi] = nm.arange(eqi.shape[0])
-            remap = eq.copy()
-            remap[scmap[:,1]] = eq[scmap[:,0]]
+            # Map every node to the first of its coinciding nodes.
+            master = nm.arange(coor.shape[0])
+            nm.minimum.at(master, cmap[:,1], cmap[:,0])
+            while not nm.array_equal(master, master[master]):
+                master = master[master]
+
+            eqi = nm.unique(master)
+            remap = nm.searchsorted(eqi, master)
             output(coor.shape)
             coor = coor[eqi]
             ngroups = ngroups[eqi]
-- 
2.43.0


From a7c3a0aebc292ea9e3351db7b385cc50e48d5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 014/137] fix: do not reuse saved node matching of other
 coordinates in periodic BCs

---
 sfepy/discrete/fem/periodic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index fa7c6a7..38a3ee9 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -1,9 +1,18 @@
+from hashlib import sha1
+
 import numpy as nm
 
 from sfepy.discrete.fem.mesh import find_map
 
 periodic_cache = {}
 
+def _get_coors_key(coors1, coors2):
+    """
+    Get a key identifying the contents of the two coordinate arrays.
+    """
+    return (sha1(nm.ascontiguousarray(coors1)).hexdigest(),
+            sha1(nm.ascontiguousarray(coors2)).hexdigest())
+
 ##
 # c: 05.05.2008, r: 05.05.2008
 eps = 1e-9
@@ -20,7 +29,7 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
         raise ValueError('incompatible shapes: %s == %s'\
               % (coors1.shape, coors2.shape))
 
-    key = coors1.shape + ('line', which)
+    key = coors1.shape + ('line', which) + _get_coors_key(coors1, coors2)
     if key in periodic_cache and get_saved:
         return periodic_cache[key]
     else:
@@ -59,7 +68,7 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
                          % (coors1.shape, coors2.shape))
 
     key_dir = None if direction is None else tuple(direction)
-    key = coors1.shape + ('dir', key_dir)
+    key = coors1.shape + ('dir', key_dir) + _get_coors_key(coors1, coors2)
     if key in periodic_cache and get_saved:
         return periodic_cache[key]
     else:
-- 
2.43.0


From cebcdd31b8b23099e0666da0b7026ddcfb5fca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 015/137] fix: quadratures with full_order above the tabulated
 orders

---
 sfepy/discrete/quadratures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index 14de4f2..e7ec96d 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -152,9 +152,9 @@ class QuadraturePoints(Struct):
             qp.order = order
 
         else:
+            order1d = order
+            dim = int(geometry[0])
             if not full_order:
-                order1d = order
-                dim = int(geometry[0])
                 order = dim * order1d
 
             if order <= max_orders[geometry]:
-- 
2.43.0


From 774d1b6fa6976093bdf2ca513365833fc85db279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 016/137] fix: node coordinates of higher order wedge elements

---
 sfepy/discrete/fem/poly_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index f3b7a52..2e58273 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -715,7 +715,7 @@ class LagrangeWedgePolySpace(FEPolySpace):
         self.nts = nm.vstack([ps2.nts, ps1.nts])
         self.nts[ps2.n_nod:, 1] += ps2.n_nod
 
-        self.node_coors = nm.empty((n_nod, 3), nm.int32)
+        self.node_coors = nm.empty((n_nod, 3), nm.float64)
         self.node_coors[:, :2] = nm.tile(ps2.node_coors, (ps1.n_nod, 1))
         self.node_coors[:, 2] = nm.repeat(ps1.node_coors, ps2.n_nod,
                                           axis=0)[:, 0]
-- 
2.43.0


From 27a49bbec0ab2e0184ea4392c8be8ae91242dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 017/137] fix: gradients of Bernstein basis on simplex
 boundaries

---
 sfepy/discrete/fem/poly_spaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index 2e58273..7e81750 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -1163,7 +1163,8 @@ class BernsteinSimplexPolySpace(FEPolySpace):
                         for im in range(dim + 1):
                             if ib == im:
                                 val *= (ex *
-                                        nm.power(bcoors[:, im], ex - 1) *
+                                        nm.power(bcoors[:, im],
+                                                 max(ex - 1, 0)) *
                                         bgrad[ib, ider])
 
                             else:
-- 
2.43.0


From 63cdabd8d05e21c9cb81071129189f54516faf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 018/137] fix: second derivatives of Lagrange simplex basis
 with bubble

---
 sfepy/discrete/fem/poly_spaces.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index 7e81750..e179d8a 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -483,6 +483,17 @@ class LagrangeSimplexBPolySpace(LagrangeSimplexPolySpace):
         else:
             self.eval_ctx = None
 
+    def _eval_hessian(self, coors):
+        bfgg = LagrangeSimplexPolySpace._eval_hessian(self, coors)
+
+        # The bubble node has its own order, see eval_basis_lagrange().
+        n_v = self.geometry.n_vertex
+        bubble = bfgg[..., -1:] * (n_v / max(self.order, 1))**n_v
+        bfgg[..., -1:] = bubble
+        bfgg[..., :-1] -= bubble / (self.n_nod - 1)
+
+        return bfgg
+
     def create_context(self, *args, **kwargs):
         ctx = LagrangePolySpace.create_context(self, *args, **kwargs)
         ctx.is_bubble = 1
-- 
2.43.0


From 9853e11080a61c05a4a33796a8bcb82e15387a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 019/137] fix: node order of faces of higher order elements

---
 sfepy/discrete/fem/fields_base.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..9b347d2 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -443,6 +443,22 @@ class FEField(Field):
                 efs = efs[:, nm.newaxis]
             self.efaces = nm.hstack((self.efaces, efs))
 
+        if (gel.dim == 3) and (nd is not None) and (self.ori is None):
+            # Order the nodes of all faces w.r.t. the face vertices in the same
+            # way as in the first face.
+            node_coors = self.poly_space.node_coors
+            for ii, ef in enumerate(self.efaces):
+                fcs = node_coors[ef] - node_coors[ef[0]]
+                axes = fcs[[1, gel.surface_facet.n_vertex - 1]]
+                rcs = nm.linalg.solve(nm.dot(axes, axes.T),
+                                      nm.dot(axes, fcs.T)).T
+                if ii == 0:
+                    rcs0 = rcs
+                    continue
+
+                dist = nm.linalg.norm(rcs0[:, None] - rcs[None], axis=-1)
+                self.efaces[ii] = ef[dist.argmin(axis=1)]
+
         if gel.dim == 3:
             self.eedges = gel.edges.copy()
             efs = node_desc.edge
-- 
2.43.0


From 536ac07d7fe7f32d787184954172378cfeba7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 020/137] fix: mappings of hierarchic and refined fields in
 subdomains

---
 sfepy/discrete/fem/fields_base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 9b347d2..c248313 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1263,20 +1263,26 @@ class FEField(Field):
         coors = domain.get_mesh_coors(actual=True)
 
         iels = region.get_cells(true_cells_only=(region.kind == 'cell'))
-        transform = (self.basis_transform[iels] if self.basis_transform
-                     is not None else None)
+
+        lels, ori, transform = None, self.ori, self.basis_transform
+        if (region.kind == 'cell') and ((ori is not None)
+                                        or (transform is not None)):
+            # The orientation and transform data are local to the field cells.
+            lels = self.region.get_cell_indices(iels)
+            ori = ori[lels] if ori is not None else None
+            transform = transform[lels] if transform is not None else None
 
         geo_ps = self.geom_poly_space
         ps = self.poly_space
 
         if region.kind == 'cell':
             qp = self.get_qp('v', integral)
-            bf = self.eval_basis('v', 0, integral, iels=iels)
+            bf = self.eval_basis('v', 0, integral, iels=lels)
 
             dconn = domain.get_conn(tdim=region.tdim, cells=iels)
             mapping = FEMapping(coors, dconn, poly_space=geo_ps)
             out = mapping.get_mapping(qp.vals, qp.weights, bf, poly_space=ps,
-                                      ori=self.ori, transform=transform)
+                                      ori=ori, transform=transform)
 
         elif region.kind == 'facet':
             assert_(self.approx_order > 0)
-- 
2.43.0


From d6bf6b88a07f0294a418154b2c8d72f1194112db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 021/137] fix: averaging quadrature point data into vertices in
 subdomains

---
 sfepy/discrete/fem/fields_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index c248313..d5f45e8 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1441,11 +1441,10 @@ class FEField(Field):
 
         rg = self.get_mapping(self.region, integral, region.kind)[0]
 
-        area = nm.squeeze(rg.volume)
-        iels = self.region.get_cells()
+        area = nm.ravel(rg.volume)
 
         data_e = nm.zeros((area.shape[0], 1, nc, 1), dtype=nm.float64)
-        rg.integrate(data_e, data_qp[iels])
+        rg.integrate(data_e, data_qp)
 
         ir = nm.arange(nc, dtype=nm.int32)
 
@@ -1459,7 +1458,7 @@ class FEField(Field):
         for ii, cc in enumerate(conn):
             # Assumes unique nodes in cc!
             ind2, ind1 = nm.meshgrid(ir, cc)
-            data_vertex[ind1, ind2] += data_e[iels[ii], 0, :, 0]
+            data_vertex[ind1, ind2] += data_e[ii, 0, :, 0]
             nod_vol[cc] += area[ii]
 
         data_vertex /= nod_vol[:, nm.newaxis]
-- 
2.43.0


From e9b8fd102b8d2200ff9eded400293e26b41330f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 022/137] fix: reference coordinates of extrapolated points

---
 sfepy/discrete/common/extmods/refcoors.c | 37 ++++++++++++++----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 47373ba..130cc2d 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -390,12 +390,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
 {
   BasisContext *ctx = (BasisContext *) _ctx;
 
-  int32 ip, ic, ii, imin, ok, xi_ok, ret = RET_OK;
+  int32 ip, ic, ii, imin, ok, xi_ok, xi_ok_min, ret = RET_OK;
   int32 D = mesh->topology->max_dim;
   int32 nc = mesh->geometry->dim;
   float64 d_min, dist;
   float64 *mesh_coors = mesh->geometry->coors;
-  float64 buf3[3];
+  float64 buf3[3], xi_min[3];
   FMField point[1], e_coors[1], xi[1];
   Indices cell_vertices[1];
   MeshEntity cell_ent[1];
@@ -423,9 +423,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
       continue;
     }
 
-    ok = xi_ok = 0;
+    ok = xi_ok = xi_ok_min = 0;
     d_min = 1e10;
     imin = candidates[offsets[ip]];
+    for (ii = 0; ii < nc; ii++) {
+      xi_min[ii] = 0.0;
+    }
 
     for (ic = offsets[ip]; ic < offsets[ip+1]; ic++) {
       /* output("***** %d %d %d\n", ip, ic, candidates[ic]); */
@@ -438,26 +441,28 @@ int32 refc_find_ref_coors(FMField *ref_coors,
                       ctx->e_coors_max->val);
       xi_ok = ctx->get_xi_dist(&dist, xi, point, e_coors, ctx);
 
-      if (xi_ok) {
-        if (dist < qp_eps) {
-          imin = cell_ent->ii;
-          ok = 1;
-          break;
-        } else if (dist < d_min) {
-          d_min = dist;
-          imin = cell_ent->ii;
-        }
-      } else if (dist < d_min) {
+      if (xi_ok && (dist < qp_eps)) {
+        ok = 1;
+      }
+      // Remember the reference coordinates along with their cell.
+      if (ok || (dist < d_min)) {
         d_min = dist;
         imin = cell_ent->ii;
+        xi_ok_min = xi_ok;
+        for (ii = 0; ii < nc; ii++) {
+          xi_min[ii] = xi->val[ii];
+        }
+      }
+      if (ok) {
+        break;
       }
     }
-    /* output("-> %d %d %d %.3e\n", imin, xi_ok, ok, d_min); */
+    /* output("-> %d %d %d %.3e\n", imin, xi_ok_min, ok, d_min); */
 
     cells[ip] = imin;
 
     if (ok != 1) {
-      if (!xi_ok) {
+      if (!xi_ok_min) {
         status[ip] = 4;
       } else if (allow_extrapolation) {
         if (sqrt(d_min) < close_limit) {
@@ -473,7 +478,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     }
 
     for (ii = 0; ii < nc; ii++) {
-      ref_coors->val[nc*ip+ii] = xi->val[ii];
+      ref_coors->val[nc*ip+ii] = xi_min[ii];
     }
     ERR_CheckGo(ret);
   }
-- 
2.43.0


From f4bd70558a3f8fba95d92cc5eec9bce74dbea372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 023/137] fix: circle probes with normals close to the z axis

---
 sfepy/discrete/probes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 0c92b95..9bd71a0 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -713,10 +713,11 @@ class CircleProbe(Probe):
             # Rotate to satisfy the normal, shift to the centre.
             n1 = nm.array([0.0, 0.0, 1.0], dtype=nm.float64)
             axis = nm.cross(n1, self.normal)
-            angle = nm.arccos(nm.dot(n1, self.normal))
+            axis_norm = nla.norm(axis)
+            angle = nm.arctan2(axis_norm, nm.dot(n1, self.normal))
 
-            if nla.norm(axis) < 0.1:
-                # n1 == self.normal
+            if axis_norm < 1e-12:
+                # n1 == self.normal or n1 == -self.normal
                 rot_mtx = nm.eye(3, dtype=nm.float64)
             else:
                 rot_mtx = make_axis_rotation_matrix(axis, angle)
-- 
2.43.0


From 1fe0cedab7fcc0f9a0ecbeff93477be84483dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 024/137] fix: cells by function in meshes embedded in a higher
 dimension

---
 sfepy/discrete/common/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index a2917ae..9f32408 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -82,7 +82,7 @@ def region_leaf(domain, regions, rdef, functions, tdim):
         elif token == 'E_CBF':
             where = details[2]
 
-            coors = domain.get_centroids(dim)
+            coors = domain.get_centroids(cmesh.tdim)
 
             fun = functions[where]
             cells = fun(coors, domain=domain)
-- 
2.43.0


From a098b644754e557404d3a999f1ae17a13c95d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 025/137] fix: point evaluation cache and mesh groups of fields
 in subdomains

---
 sfepy/discrete/fem/fields_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index d5f45e8..8d0b253 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1003,7 +1003,7 @@ class FEField(Field):
                 conn = self.econn[:, :self.gel.n_vertex]
 
             conns = [conn]
-            mat_ids = [self.cmesh.cell_groups]
+            mat_ids = [self.cmesh.cell_groups[self.region.get_cells()]]
             tdim = self.cmesh.tdim
             descs = f'{tdim}_{conn.shape[1]}'
             if descs not in mesh.descs:
@@ -1057,7 +1057,7 @@ class FEField(Field):
         timer = Timer(start=True)
         if (cache.get('cmesh', None) is None) or not share_geometry:
             mesh = self.create_mesh(extra_nodes=False)
-            cache.cmesh = cmesh = self.cmesh
+            cache.cmesh = cmesh = mesh.cmesh
 
             gels = create_geometry_elements()
 
@@ -1078,7 +1078,7 @@ class FEField(Field):
 
         timer.start()
         if (cache.get('kdtree', None) is None) or not share_geometry:
-            cache.kdtree = KDTree(cmesh.coors)
+            cache.kdtree = KDTree(cache.cmesh.coors)
 
         output('kdtree: %f s' % timer.stop(), verbose=verbose)
 
-- 
2.43.0


From 2135a8a4b8713bdf561655ff87e77e0a387df455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 026/137] fix: mappings of quadrilateral facets that are not
 parallelograms

---
 sfepy/discrete/fem/fields_base.py | 5 +----
 sfepy/discrete/fem/mappings.py    | 5 ++++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 8d0b253..c25482a 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1345,8 +1345,7 @@ class FEField(Field):
 
                         ffcidx = nm.where(efc_map == bkey)[0][0]
                         ffcidxs.append(ffcidx)
-                        indx = self.efaces[ffcidx]
-                        indx = nm.roll(indx[:bkey], -1)[::-1]
+                        indx = self.efaces[ffcidx][:bkey]
                         indxs[ikey] = indx
 
                         fcco = ps.geometry.coors[indx]
@@ -1377,8 +1376,6 @@ class FEField(Field):
                     bf = abf[..., self.efaces[0]]
 
                     indx = self.gel.get_surface_entities()[0]
-                    # Fix geometry element's 1st facet orientation for gradients.
-                    indx = nm.roll(indx, -1)[::-1]
                     mapping.set_basis_indices(indx)
 
                     if integration == 'facet_extra':
diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index d970967..b5f363b 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -256,7 +256,10 @@ class FEMapping(Mapping):
 
                 bf = bf_
             else:
-                bf = nm.ascontiguousarray(bf[..., :ii:, indices])
+                if diff:
+                    # The facet tangents in the order of the outward normal.
+                    bf = bf[..., ii-1::-1, :]
+                bf = nm.ascontiguousarray(bf[..., indices])
 
         return bf
 
-- 
2.43.0


From 05152f14654e5a1d6d3df39d7ebd321924f9620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 027/137] fix: mappings of surface cells not parallel to the xy
 plane

---
 sfepy/discrete/fem/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index b5f363b..e484280 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -40,7 +40,7 @@ def transform_coors_to_lower_dim(coors, to_dim):
             R0 = nm.array([
                 [u1**2 * cphi1, u1 * u2 * cphi1, u2 * sphi],
                 [u1 * u2 * cphi1, u2**2 * cphi1, -u1 * sphi],
-                [-u2 * sphi, u1 * sphi, 0]
+                [-u2 * sphi, u1 * sphi, nm.zeros_like(sphi)]
             ]).transpose(2, 0, 1)
             mtxR[idxs, ...] += R0
 
-- 
2.43.0


From b71fbf6032f9aa3af1ef77d9bb7b7b7b09f8f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 028/137] fix: orientation of facet normals in 1D

---
 sfepy/discrete/fem/fields_base.py |  6 ++++--
 sfepy/discrete/fem/mappings.py    | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index c25482a..6749eb6 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1389,7 +1389,8 @@ class FEField(Field):
                         se_bf_bg, se_ebf_bg, se_conn = None, None, None
 
                     out = mapping.get_mapping(qp.vals[0], qp.weights, bf,
-                        extra=(se_conn, se_bf_bg, se_ebf_bg), is_face=True)
+                        extra=(se_conn, se_bf_bg, se_ebf_bg), is_face=True,
+                        face_ids=sd.fis[:, 1])
 
             else:
                 # Do not use BQP for surface fields.
@@ -1397,7 +1398,8 @@ class FEField(Field):
                 bf = ps.eval_basis(qp.vals, transform=transform)
 
                 out = mapping.get_mapping(qp.vals, qp.weights, bf,
-                                          is_face=True)
+                                          is_face=True,
+                                          face_ids=sd.fis[:, 1])
 
         else:
             out = mapping = None
diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index e484280..e12d0c9 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -70,7 +70,8 @@ def transform_coors_to_lower_dim(coors, to_dim):
 
 def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
                             ebf_g=None, is_face=False, eps=1e-15,
-                            se_conn=None, se_bf_bg=None, ecoors=None):
+                            se_conn=None, se_bf_bg=None, ecoors=None,
+                            face_ids=None):
     """
     Evaluate mapping data.
 
@@ -99,6 +100,9 @@ def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
         coordinates.
     ecoors: numpy.ndarray
         The element nodal coordinates.
+    face_ids: numpy.ndarray
+        The local facet indices of the faces within their cells. They determine
+        the orientation of the normals in 1D.
 
     Returns
     -------
@@ -129,7 +133,10 @@ def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
         normal = nm.ones((n_el, n_qp, dim, 1), dtype=nm.float64)
         if dim == 1:
             det = nm.tile(weights, (n_el, 1)).reshape(n_el, n_qp, 1, 1)
-            ii = nm.where(conn == 0)[0]
+            if face_ids is None:
+                ii = nm.where(conn == 0)[0]
+            else:
+                ii = nm.where(face_ids == 0)[0]
             normal[ii] *= -1.0
         elif dim == 2:
             c1, c2 = mtxRM[..., 0], mtxRM[..., 1]
@@ -301,7 +308,7 @@ class FEMapping(Mapping):
 
     def get_mapping(self, qp_coors, weights, bf=None, poly_space=None,
                     ori=None, transform=None, is_face=False, fc_bf_map=None,
-                    extra=(None, None, None)):
+                    extra=(None, None, None), face_ids=None):
         """
         Get the mapping for given quadrature points, weights, and
         polynomial space.
@@ -333,6 +340,9 @@ class FEMapping(Mapping):
             - the boundary connectivity
             - the derivatives of the domain boundary basis functions with
               respect to the reference coordinates
+        face_ids: numpy.ndarray
+            The local facet indices of the faces within their cells, used to
+            orient the normals in 1D.
 
         Returns
         -------
@@ -369,7 +379,7 @@ class FEMapping(Mapping):
         margs = eval_mapping_data_in_qp(self.coors, self.conn,
                                         bf_g, weights, ebf_g, is_face=is_face,
                                         se_conn=se_conn, se_bf_bg=se_bf_bg,
-                                        ecoors=ecoors)
+                                        ecoors=ecoors, face_ids=face_ids)
 
         if bf is None:
             bf = nm.array([[[[0.]]]])
-- 
2.43.0


From 3720d568f7da99e2b51dfda5da7168c64c990df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 029/137] fix: dw_lin_strain_fib: double the shear components
 of the fibre strain (engineering strain storage)

---
 sfepy/terms/terms_elastic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 4640aeb..f9a7b7d 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -377,7 +377,9 @@ class LinearStrainFiberTerm(Term):
 
         omega = nm.empty(mat1.shape[:3] + (1,), dtype=nm.float64)
         for ii, (ir, ic) in enumerate(iter_sym(mat2.shape[2])):
-            omega[..., ii, 0] = mat2[..., ir, 0] * mat2[..., ic, 0]
+            # Engineering shear components.
+            omega[..., ii, 0] = ((1.0 if ir == ic else 2.0)
+                                 * mat2[..., ir, 0] * mat2[..., ic, 0])
 
         return mat1, omega, vg
 
-- 
2.43.0


From 8be78d0a6734c26304c23c03ed0c791913a46660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 030/137] fix: dw_convect_v_grad_s: use Jacobians of the
 current cell

---
 sfepy/terms/extmods/terms_diffusion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_diffusion.c b/sfepy/terms/extmods/terms_diffusion.c
index ea59c5a..98f3a81 100644
--- a/sfepy/terms/extmods/terms_diffusion.c
+++ b/sfepy/terms/extmods/terms_diffusion.c
@@ -653,6 +653,7 @@ int32 dw_convect_v_grad_s( FMField *out, FMField *val_v, FMField *grad_s,
 
   for (ii = 0; ii < out->nCell; ii++) {
     FMF_SetCell( out, ii );
+    FMF_SetCell( vvg->det, ii );
     FMF_SetCellX1( svg->bf, ii );
 
     if (isDiff == 0) {
-- 
2.43.0


From acf1ab60749ea86709a318a2ee8a11c0a8c635ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 031/137] fix: dw_electric_source: use the coefficient of each
 quadrature point

---
 sfepy/terms/extmods/terms_electric.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_electric.c b/sfepy/terms/extmods/terms_electric.c
index 36b7c7d..6c02177 100644
--- a/sfepy/terms/extmods/terms_electric.c
+++ b/sfepy/terms/extmods/terms_electric.c
@@ -25,9 +25,9 @@ int32 dw_electric_source( FMField *out, FMField *grad, FMField *coef,
     FMF_SetCellX1( vg->bf, ii );
 
     fmf_mulATB_nn( gp2, grad, grad );
+    fmf_mul( gp2, coef->val );
     fmf_mulATB_nn( bftgp2, vg->bf, gp2 );
     fmf_sumLevelsMulF( out, bftgp2, vg->det->val );
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
-- 
2.43.0


From bec861f8c03825cda2f4de95eb08af54ba77fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 032/137] fix: piezo coupling terms: support different
 approximations of the displacement and the potential

---
 sfepy/terms/extmods/terms.pyx     |  5 +++--
 sfepy/terms/extmods/terms_piezo.c | 13 +++++--------
 sfepy/terms/extmods/terms_piezo.h |  2 +-
 sfepy/terms/terms_piezo.py        |  4 +++-
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sfepy/terms/extmods/terms.pyx b/sfepy/terms/extmods/terms.pyx
index fe913ab..49e47a2 100644
--- a/sfepy/terms/extmods/terms.pyx
+++ b/sfepy/terms/extmods/terms.pyx
@@ -383,7 +383,7 @@ cdef extern from 'terms.h':
     cdef int32 _dw_piezo_coupling \
          'dw_piezo_coupling'(FMField *out, FMField *strain,
                              FMField *charge_grad,
-                             FMField *mtxG, Mapping *vg,
+                             FMField *mtxG, Mapping *vg, Mapping *svg,
                              int32 mode)
 
     cdef int32 _d_piezo_coupling \
@@ -1800,6 +1800,7 @@ def dw_piezo_coupling(np.ndarray out not None,
                       np.ndarray charge_grad not None,
                       np.ndarray mtx_g not None,
                       CMapping cmap not None,
+                      CMapping scmap not None,
                       int32 mode):
     cdef int32 ret
     cdef FMField[1] _out, _strain, _charge_grad, _mtx_g
@@ -1810,7 +1811,7 @@ def dw_piezo_coupling(np.ndarray out not None,
     array2fmfield4(_mtx_g, mtx_g)
 
     ret = _dw_piezo_coupling(_out, _strain, _charge_grad, _mtx_g,
-                             cmap.geo, mode)
+                             cmap.geo, scmap.geo, mode)
     return ret
 
 def d_piezo_coupling(np.ndarray out not None,
diff --git a/sfepy/terms/extmods/terms_piezo.c b/sfepy/terms/extmods/terms_piezo.c
index 78b1052..da49c2e 100644
--- a/sfepy/terms/extmods/terms_piezo.c
+++ b/sfepy/terms/extmods/terms_piezo.c
@@ -5,7 +5,7 @@
 #undef __FUNC__
 #define __FUNC__ "dw_piezo_coupling"
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode )
 {
   int32 ii, nEPU, nEPP, dim, sym, nQP, ret = RET_OK;
@@ -16,11 +16,7 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
   nEPU = vg->bfGM->nCol;
   sym = (dim + 1) * dim / 2;
 
-  if ((mode == 0) || (mode == 1)) {
-    nEPP = out->nCol;
-  } else {
-    nEPP = out->nRow;
-  }
+  nEPP = svg->bfGM->nCol;
 
   if (mode == 0) { 
     fmf_createAlloc( &gtgp, 1, nQP, sym, 1 );
@@ -37,6 +33,7 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
     FMF_SetCell( out, ii );
     FMF_SetCellX1( mtxG, ii );
     FMF_SetCell( vg->bfGM, ii );
+    FMF_SetCell( svg->bfGM, ii );
     FMF_SetCell( vg->det, ii );
 
     if (mode == 0) { // vector - grad
@@ -50,12 +47,12 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
       FMF_SetCell( strain, ii );
 
       fmf_mulAB_nn( ge, mtxG, strain );
-      fmf_mulATB_nn( gctge, vg->bfGM, ge );
+      fmf_mulATB_nn( gctge, svg->bfGM, ge );
       fmf_sumLevelsMulF( out, gctge, vg->det->val );
 
     } else { // matrix - div, grad
       form_sdcc_actOpG_RM3( gg, mtxG, vg->bfGM );
-      fmf_mulATB_nn( gctgg, vg->bfGM, gg );
+      fmf_mulATB_nn( gctgg, svg->bfGM, gg );
       if (mode == 1) { // matrix - grad
 	fmf_sumLevelsTMulF( out, gctgg, vg->det->val );
       } else { // matrix - div
diff --git a/sfepy/terms/extmods/terms_piezo.h b/sfepy/terms/extmods/terms_piezo.h
index 8cc8596..86f1b4c 100644
--- a/sfepy/terms/extmods/terms_piezo.h
+++ b/sfepy/terms/extmods/terms_piezo.h
@@ -12,7 +12,7 @@ BEGIN_C_DECLS
 #include "refmaps.h"
 
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode );
 
 int32 d_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
diff --git a/sfepy/terms/terms_piezo.py b/sfepy/terms/terms_piezo.py
index 0adf5d8..f87f890 100644
--- a/sfepy/terms/terms_piezo.py
+++ b/sfepy/terms/terms_piezo.py
@@ -62,7 +62,9 @@ class PiezoCouplingTerm(Term):
                 strain, grad = val_qp, aux
                 fmode += 2
 
-            return strain, grad, mat, vvg, fmode
+            svg, _ = self.get_mapping(svar)
+
+            return strain, grad, mat, vvg, svg, fmode
 
         elif mode == 'eval':
             strain = self.get(vvar, 'cauchy_strain')
-- 
2.43.0


From 6c468cf7d29ca4e14551cd637e1cd8458b221017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 033/137] fix: dw_v_dot_grad_s: do not transpose the tensor
 coefficient in the eval mode

---
 sfepy/terms/terms_dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 1d23b3e..3e6716d 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -342,7 +342,7 @@ class VectorDotGradScalarTerm(Term):
             grad = self.get(svar, 'grad')
             val = self.get(vvar, 'val')
 
-            return coef, grad, val, vvg
+            return coef, val, grad, vvg
 
         else:
             raise ValueError('unsupported evaluation mode in %s! (%s)'
-- 
2.43.0


From eacf3786c12d0a4b5bab3db67eed4209c64ef4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 034/137] fix: dw_vm_dot_s: order the element DOFs of the
 vector variable by components

---
 sfepy/terms/extmods/terms_op.c | 9 +++++----
 sfepy/terms/terms_dot.py       | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/extmods/terms_op.c b/sfepy/terms/extmods/terms_op.c
index 64252d2..48efec0 100644
--- a/sfepy/terms/extmods/terms_op.c
+++ b/sfepy/terms/extmods/terms_op.c
@@ -69,19 +69,20 @@ int32 actBfT(FMField *out, FMField *bf, FMField *A)
   fmf_fillC(out, 0.0);
   for (iel = 0; iel < out->nCell; iel++) {
     FMF_SetCell(out, iel);
+    FMF_SetCellX1(bf, iel);
     FMF_SetCellX1(A, iel);
     for (iqp = 0; iqp < bf->nLev; iqp++) {
       pbf = FMF_PtrLevel(bf, iqp);
       pout = FMF_PtrLevel(out, iqp);
-      for (ii = 0; ii < nEP; ii++) {
-        pA = FMF_PtrLevel(A, iqp);
-        for (ir = 0; ir < dim; ir++) {
+      pA = FMF_PtrLevel(A, iqp);
+      for (ir = 0; ir < dim; ir++) {
+        for (ii = 0; ii < nEP; ii++) {
           for (ic = 0; ic < A->nCol; ic++) {
             pout[ic] = pbf[ii] * pA[ic];
           }
           pout += out->nCol;
-          pA += A->nCol;
         }
+        pA += A->nCol;
       }
     } // for (iqp)
   } // for (iel)
diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 3e6716d..80e13cd 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -396,6 +396,7 @@ class VectorDotScalarTerm(Term):
     def dw_dot(out, mat, val_qp, bfve, bfsc, geo, fmode):
 
         nel, nqp, dim, nc = mat.shape
+        nel = max(nel, bfve.shape[0])
         nen = bfve.shape[3]
 
         status1 = 0
-- 
2.43.0


From 50be36e7366cd516e2d5d8dfce537448b0958d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 035/137] fix: dw_surface_ltr: support D x D stress tensors in
 the weak mode

---
 sfepy/terms/extmods/terms_surface.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/sfepy/terms/extmods/terms_surface.c b/sfepy/terms/extmods/terms_surface.c
index 98f815d..ec0d30d 100644
--- a/sfepy/terms/extmods/terms_surface.c
+++ b/sfepy/terms/extmods/terms_surface.c
@@ -50,6 +50,24 @@ int32 dw_surface_ltr( FMField *out, FMField *traction, Mapping *sg )
       ERR_CheckGo( ret );
     }
 
+  } else if ((traction->nRow == dim) && (traction->nCol == dim)) {
+    // Traction tensor - nonsymmetric.
+    fmf_createAlloc( &stn, 1, nQP, dim, 1 );
+
+    for (ii = 0; ii < out->nCell; ii++) {
+      FMF_SetCell( out, ii );
+      FMF_SetCellX1( traction, ii );
+      FMF_SetCell( sg->normal, ii );
+      FMF_SetCell( sg->det, ii );
+      FMF_SetCellX1( sg->bf, ii );
+
+      fmf_mulATB_nn( stn, traction, sg->normal );
+      bf_actt( outQP, sg->bf, stn );
+
+      fmf_sumLevelsMulF( out, outQP, sg->det->val );
+      ERR_CheckGo( ret );
+    }
+
   } else if (traction->nRow == dim) { // Traction vector.
 
     for (ii = 0; ii < out->nCell; ii++) {
@@ -87,11 +105,8 @@ int32 dw_surface_ltr( FMField *out, FMField *traction, Mapping *sg )
 
  end_label:
   fmf_freeDestroy( &outQP );
-  if (traction->nCol == 1) {
-    fmf_freeDestroy( &pn );
-  } else if (traction->nCol == sym) {
-    fmf_freeDestroy( &stn );
-  }
+  fmf_freeDestroy( &pn );
+  fmf_freeDestroy( &stn );
 
   return( ret );
 }
-- 
2.43.0


From 9199db48776e4579d98eecc91160e256f3d84200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 036/137] fix: flux evaluation modes of surface integrals

---
 sfepy/discrete/common/mappings.py | 7 +++++--
 sfepy/terms/terms_basic.py        | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/common/mappings.py b/sfepy/discrete/common/mappings.py
index 8714c8d..07f8beb 100644
--- a/sfepy/discrete/common/mappings.py
+++ b/sfepy/discrete/common/mappings.py
@@ -34,8 +34,11 @@ class PyCMapping(Struct):
             out[:] = nm.sum(field * self.det, axis=1)[:, None, :, :]
             if mode == 1:
                 out /= self.volume
-        elif dim == (self.tdim + 1) and self.normal is not None:
-            out[:] = nm.dot(field, self.normal) * self.det / self.volume
+        elif self.normal is not None:
+            flux = nm.sum(field * self.normal, axis=2, keepdims=True)
+            out[:] = nm.sum(flux * self.det, axis=1)[:, None, :, :]
+            if mode == 4:
+                out /= self.volume
 
         return 0
 
diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index f4c7f0b..2305b60 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -71,7 +71,7 @@ class IntegrateTerm(Term):
 
         elif fmode == 5:
             normal = vg.normal
-            out[:] = dot_sequences(val_qp, normal)
+            out[:] = dot_sequences(val_qp, normal, mode='ATB')
             status = 0
 
         else:
-- 
2.43.0


From cf93fa09fbb4d67c3f950e839c5c1dbf41405a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 037/137] fix: ev_sum_vals: do not multiply the sum by the
 number of cells

---
 sfepy/terms/terms_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index 2305b60..d9a90e4 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -337,4 +337,4 @@ class SumNodalValuesTerm(Term):
                        mode=None, term_mode=None, diff_var=None, **kwargs):
         n_el, n_qp, dim, n_en, n_c = self.get_data_shape(parameter)
 
-        return (n_el, n_c), parameter.dtype
+        return (1, n_c), parameter.dtype
-- 
2.43.0


From ab029410588c2d0edb34f0e77b2aba3ac4547889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 038/137] fix: dw_st_adj_supg_c: transpose the gradient in the
 residual, argument order

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 2 +-
 sfepy/terms/terms_adj_navier_stokes.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index 88e2813..d7aaf2b 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -214,7 +214,7 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
     // u grad.
     convect_build_vtg( fUTg, vg->bfGM, stateU );
     // (grad u, u^T grad).
-    fmf_mulAB_nn( gUfUTg, gradU, fUTg );
+    fmf_mulATB_nn( gUfUTg, gradU, fUTg );
     // (v grad u, u grad).
     bf_actt( fTgUfUTg, vg->bf, gUfUTg );
 
diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 44b0623..fdfa765 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -133,7 +133,7 @@ class SUPGCAdjStabilizationTerm(Term):
 
     function = staticmethod(terms.dw_st_adj_supg_c)
 
-    def get_fargs(self, mat, virtual, state, parameter,
+    def get_fargs(self, mat, virtual, parameter, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
         vg, _ = self.get_mapping(state)
 
-- 
2.43.0


From 5e57dcbfbc7a0bf7ce97fe086662abc20b6ee4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 039/137] fix: multilinear terms: broadcast axes of size one in
 loop, jax_vmap and dask backends

---
 sfepy/terms/terms_multilinear.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..e237ed7 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -117,7 +117,7 @@ def get_einsum_ops(eargs, ebuilder, expr_cache):
                 step_cache = arg.arg.evaluate_cache.setdefault('dofs', {})
                 step = arg.term.arg_steps[arg.name]
                 cache = step_cache.setdefault(step, {})
-                op = arg.get_dofs(cache, expr_cache, oname)
+                op = arg.get_dofs(cache)
 
             elif val_name == 'bf':
                 cell_dep = len(ebuilder.subscripts[ia][io]) == 3
@@ -612,17 +612,14 @@ class ExpressionBuilder(Struct):
 
                 else:
                     new_subs = ''.join([subs[ii] for ii in inew])
-                    if val_name == 'dofs':
-                        key = (oname,) + tuple(inew)
 
-                    else:
-                        # id is unique only during object lifetime!
-                        key = (id(op),) + tuple(inew)
-
-                    new_op = self.cache.get(key)
-                    if new_op is None:
+                    # id is unique only during object lifetime -> store the
+                    # operand together with its transposition.
+                    key = (oname, subs) + tuple(inew)
+                    old_op, new_op = self.cache.get(key, (None, None))
+                    if old_op is not op:
                         new_op = op.transpose(inew).copy()
-                        self.cache[key] = new_op
+                        self.cache[key] = (op, new_op)
 
                     new_subscripts[ia][io] = new_subs
                     new_operands[ia][io] = new_op
@@ -1120,7 +1117,7 @@ class ETermBase(Term):
             output('parsed expressions:', self.parsed_expressions)
 
         cloop = self.backend in ('numpy_loop', 'opt_einsum_loop', 'jax_vmap')
-        qloop = self.backend in ('numpy_qloop', 'opt_einsum_qloop')
+        qloop = self.is_qloop(mode)
         if cloop or qloop:
             loop_index = 'c' if cloop else 'q'
             transform = ebuilder.transform(subscripts, operands,
-- 
2.43.0


From e88b435b674c43f1018b811ab17bd2c150fa1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 040/137] fix: multilinear terms: stale operands when id of an
 array is reused

---
 sfepy/terms/terms_mass.py        |  2 +-
 sfepy/terms/terms_multilinear.py | 16 +++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/sfepy/terms/terms_mass.py b/sfepy/terms/terms_mass.py
index 3a73fe3..7b4056a 100644
--- a/sfepy/terms/terms_mass.py
+++ b/sfepy/terms/terms_mass.py
@@ -124,7 +124,7 @@ class MassTerm(ETermBase):
                 earg = self.einfos[None].eargs[2]
                 step_cache = earg.arg.evaluate_cache.setdefault('dofs', {})
                 cache = step_cache.setdefault(0, {})
-                dofs = earg.get_dofs(cache, step_cache, state.name + '.dofs')
+                dofs = earg.get_dofs(cache)
                 dofs = dofs.reshape((sh[0], sh[2])) # Does a copy!
 
                 # Could be faster by exploiting that mld is a vector.
diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index e237ed7..488e798 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -89,7 +89,8 @@ def get_sizes(indices, operands):
 
     for iis, op in zip(indices, operands):
         for ii, size in zip(iis, op.shape):
-            sizes[ii] = size
+            # Axes of size one, e.g. of constant materials, are broadcast.
+            sizes[ii] = max(size, sizes.get(ii, size))
 
     return sizes
 
@@ -168,7 +169,9 @@ def get_slice_ops(subs, ops, loop_index):
         for ii, icol in enumerate(ics):
             op = ops[ii]
             if icol is not None:
-                slices = tuple(slice(None, None) if isub != icol else ic
+                # Axes of size one are broadcast.
+                jc = ic if op.shape[icol] > 1 else 0
+                slices = tuple(slice(None, None) if isub != icol else jc
                                for isub in range(op.ndim))
                 sops.append(op[slices])
 
@@ -209,7 +212,7 @@ class ExpressionArg(Struct):
 
         return obj
 
-    def get_dofs(self, cache, expr_cache, oname):
+    def get_dofs(self, cache):
         if self.kind != 'state': return
 
         key = (self.name, self.term.region.name,
@@ -229,11 +232,6 @@ class ExpressionArg(Struct):
                 dofs.shape = (dofs.shape[0], -1)
             cache[key] = dofs
 
-            # New dofs -> clear dofs from expression cache.
-            for key in list(expr_cache.keys()):
-                if isinstance(key, tuple) and (key[0] == oname):
-                    expr_cache.pop(key)
-
         return dofs
 
     def get_bf(self, expr_cache, cell_dependent=False):
@@ -586,7 +584,7 @@ class ExpressionBuilder(Struct):
                 elif val_name in ('bf', 'dofs'):
                     default = defaults[val_name][op.ndim - 2]
 
-                elif val_name in ('I', 'Psg', 'Pvg'):
+                elif val_name in ('ivol', 'I', 'Psg', 'Pvg'):
                     default = layout.replace('0', '') # -> Do nothing.
 
                 else:
-- 
2.43.0


From ba4fad8f741013c28878dbb6bcf383a6e89db492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 041/137] fix: multilinear terms: qp and el_avg evaluation
 modes

---
 sfepy/terms/terms_multilinear.py | 43 ++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 488e798..2c2ed78 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -310,7 +310,10 @@ class ExpressionBuilder(Struct):
         pvg = self.cache.get(key)
         if pvg is None:
             pvg = nm.zeros((dim, dim, dim*dim))
-            if dim == 3:
+            if dim == 1:
+                pvg[0, 0, 0] = 1
+
+            elif dim == 3:
                 pvg[0, [0, 1, 2], [0, 1, 2]] = 1
                 pvg[1, [0, 1, 2], [3, 4, 5]] = 1
                 pvg[2, [0, 1, 2], [6, 7, 8]] = 1
@@ -518,7 +521,7 @@ class ExpressionBuilder(Struct):
 
         for ia, subscripts in enumerate(self.subscripts):
             ifree = [ii for ii in find_free_indices(subscripts)
-                     if ii not in self.out_subscripts[ia]]
+                     if ii not in self.out_subscripts[ia] + 'q']
             if ifree:
                 # Lexicographic ordering of output indices, i.e.
                 # (n_comp, dim) or (dim, n_comp) <=> i.j or j.i
@@ -653,10 +656,13 @@ class ExpressionBuilder(Struct):
             loop_index = kwargs.get('loop_index', 'c')
             for ia in range(len(operands)):
                 da_ops = []
+                sizes = get_sizes(subscripts[ia], operands[ia])
                 for name, ii, op in zip(self.operand_names[ia],
                                         subscripts[ia],
                                         operands[ia]):
                     if loop_index in ii:
+                        # Broadcast the axes of size one.
+                        op = nm.broadcast_to(op, [sizes[ic] for ic in ii])
                         if c_chunk_size is None:
                             chunks = 'auto'
 
@@ -820,17 +826,30 @@ class ETermBase(Term):
 
         return ebuilder
 
+    def is_qloop(self, mode, loop=True):
+        """
+        The results in quadrature points cannot be computed by summing over
+        quadrature points.
+        """
+        return ((self.backend in ('numpy_qloop', 'opt_einsum_qloop'))
+                and ((mode != 'qp') == loop))
+
     def make_function(self, texpr, *args, mode=None, diff_var=None):
         timer = Timer('')
         timer.start()
 
-        einfo = self.einfos.setdefault(diff_var, Struct(
-            eargs=None,
-            ebuilder=None,
-            paths=None,
-            path_infos=None,
-            eval_einsum=None,
-        ))
+        # The expressions differ in these modes.
+        emode = mode if mode in ('qp', 'el_avg') else None
+        einfo = self.einfos.get(diff_var)
+        if (einfo is None) or (einfo.emode != emode):
+            einfo = self.einfos[diff_var] = Struct(
+                emode=emode,
+                eargs=None,
+                ebuilder=None,
+                paths=None,
+                path_infos=None,
+                eval_einsum=None,
+            )
 
         if einfo.eval_einsum is not None:
             if self.verbosity:
@@ -864,8 +883,10 @@ class ETermBase(Term):
 
         n_add = einfo.ebuilder.n_add
 
-        if self.backend in ('numpy', 'opt_einsum'):
-            contract = nm.einsum if self.backend == 'numpy' else oe.contract
+        if (self.backend in ('numpy', 'opt_einsum')
+            or self.is_qloop(mode, loop=False)):
+            contract = (nm.einsum if self.backend.startswith('numpy')
+                        else oe.contract)
             def eval_einsum_orig(out, eshape, expressions, operands, paths):
                 if operands[0][0].flags.c_contiguous:
                     # This is very slow if vout layout differs from operands
-- 
2.43.0


From a6f7d484924f05272ac002563a58dd46d6ffbc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 042/137] fix: multilinear terms: symmetric and vector storage
 gradients in 1D

---
 sfepy/terms/terms_multilinear.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 2c2ed78..a0a30bf 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -248,18 +248,13 @@ class ExpressionArg(Struct):
         else:
             bf = ag.bf
 
-        key = 'bf{}'.format(id(bf))
-        _bf  = expr_cache.get(key)
-
-        if cell_dependent:
-            if _bf is None:
-                _bf = bf[:, :, 0]
-                expr_cache[key] = _bf
-
-        else:
-            if _bf is None:
-                _bf = bf[0, :, 0]
-                expr_cache[key] = _bf
+        # id is unique only during object lifetime -> store bf together with its
+        # view.
+        key = 'bf{}'.format(self.name)
+        old_bf, _bf = expr_cache.get(key, (None, None))
+        if old_bf is not bf:
+            _bf = bf[:, :, 0] if cell_dependent else bf[0, :, 0]
+            expr_cache[key] = (bf, _bf)
 
         return _bf
 
@@ -292,7 +287,10 @@ class ExpressionBuilder(Struct):
         if psg is None:
             sym = dim2sym(dim)
             psg = nm.zeros((dim, dim, sym))
-            if dim == 3:
+            if dim == 1:
+                psg[0, 0, 0] = 1
+
+            elif dim == 3:
                 psg[0, [0,1,2], [0,3,4]] = 1
                 psg[1, [0,1,2], [3,1,5]] = 1
                 psg[2, [0,1,2], [4,5,2]] = 1
-- 
2.43.0


From 6d0f262ec9ffe4555b1a74455a26ac561537a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 043/137] fix: multilinear terms: jax_vmap backend with
 operands of size one cell axis

---
 sfepy/terms/terms_multilinear.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index a0a30bf..00a56e5 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -1145,6 +1145,14 @@ class ETermBase(Term):
             if self.backend == 'jax_vmap':
                 all_ics = [get_loop_indices(subs, loop_index)
                            for subs in subscripts]
+                # Axes of size one cannot be mapped together with the others,
+                # use the operands of the first cell.
+                n_cell = loop_sizes[0]
+                for ia, (ics, ops) in enumerate(zip(all_ics, operands)):
+                    for io, ic in enumerate(ics):
+                        if (ic is not None) and (ops[io].shape[ic] < n_cell):
+                            ics[io] = None
+                            operands[ia][io] = poperands[ia][io]
                 vms = (None, None, None, all_ics)
                 vmap_eval_cell = jax.jit(jax.vmap(eval_einsum[1], vms, 0),
                                          static_argnums=(0, 1, 2))
-- 
2.43.0


From 331c65c6334c182c0f16fce452fca27b5d54818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 044/137] fix: hyperelastic terms: compute tangent matrices
 with the current stress

---
 sfepy/terms/terms_hyperelastic_base.py | 15 ++++-----------
 sfepy/terms/terms_hyperelastic_tl.py   | 10 ++++------
 sfepy/terms/terms_hyperelastic_ul.py   | 10 ++++------
 3 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..b3eb6fc 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -153,11 +153,6 @@ class HyperElasticBase(Term):
     def function(out, fun, *args):
         return fun(out, *args)
 
-    def __init__(self, *args, **kwargs):
-        Term.__init__(self, *args, **kwargs)
-
-        self.stress_cache = None
-
     def compute_stress(self, mat, family_data, **kwargs):
         out = nm.empty_like(family_data.green_strain)
 
@@ -193,18 +188,16 @@ class HyperElasticBase(Term):
                                   self.arg_derivatives[name])
 
         if mode == 'weak':
+            # The stress has to correspond to the current state and material
+            # also when only the tangent matrix is assembled.
+            stress = self.compute_stress(mat, fd, **kwargs)
+
             if diff_var is None:
-                stress = self.compute_stress(mat, fd, **kwargs)
-                self.stress_cache = stress
                 tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                 fmode = 0
 
             else:
-                stress = self.stress_cache
-                if stress is None:
-                    stress = self.compute_stress(mat, fd, **kwargs)
-
                 tan_mod = self.compute_tan_mod(mat, fd, **kwargs)
                 fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 40371db..361fcb5 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -644,18 +644,16 @@ class BulkPressureTLTerm(HyperElasticTLBase):
 
         if mode == 'weak':
             if diff_var != state_p.name:
+                # The stress has to correspond to the current state also when
+                # only the tangent matrix is assembled.
+                stress = self.compute_data(fd, 0, **kwargs)
+
                 if diff_var is None:
-                    stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_ul.py b/sfepy/terms/terms_hyperelastic_ul.py
index dbec72d..cec6821 100644
--- a/sfepy/terms/terms_hyperelastic_ul.py
+++ b/sfepy/terms/terms_hyperelastic_ul.py
@@ -151,18 +151,16 @@ class BulkPressureULTerm(HyperElasticULBase):
 
         if mode == 'weak':
             if diff_var != state_p.name:
+                # The stress has to correspond to the current state also when
+                # only the tangent matrix is assembled.
+                stress = self.compute_data(fd, 0, **kwargs)
+
                 if diff_var is None:
-                    stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
-- 
2.43.0


From 0d8ce5d9d0cc805ebee85c4ebe5026dd789c88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 045/137] fix: fibre terms: use the current fibre directions

---
 sfepy/terms/terms_fibres.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index e02b6c2..e4c77c3 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -101,9 +101,7 @@ class FibresActiveTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         fmax, eps_opt, s, fdir, act = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
 
@@ -186,9 +184,7 @@ class FibresExponentialTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
 
@@ -286,9 +282,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         alpha, sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = compute_fibre_strain(green_strain, omega)
 
-- 
2.43.0


From de3b4d1bdb5f14eab4ddb05e6b56542c4ecb6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 046/137] fix: fibre terms: shear components in the fibre
 strain

---
 sfepy/terms/terms_fibres.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index e4c77c3..778c37c 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -2,7 +2,7 @@ import numpy as nm
 
 from sfepy.base.base import Struct
 from sfepy.terms.terms_hyperelastic_tl import HyperElasticTLBase
-from sfepy.mechanics.tensors import dim2sym
+from sfepy.mechanics.tensors import dim2sym, sym2dim
 from sfepy.homogenization.utils import iter_sym
 
 def create_omega(fdir):
@@ -22,8 +22,11 @@ def compute_fibre_strain(green_strain, omega):
     Compute the Green strain projected to the fibre direction.
     """
     eps = nm.zeros_like(omega[..., :1, :])
+    dim = sym2dim(omega.shape[2])
     for ii in range(omega.shape[2]):
-        eps[..., 0, 0] += omega[..., ii, 0] * green_strain[..., ii, 0]
+        # The off-diagonal components contribute twice.
+        mult = 1.0 if ii < dim else 2.0
+        eps[..., 0, 0] += mult * omega[..., ii, 0] * green_strain[..., ii, 0]
 
     return eps
 
-- 
2.43.0


From 48544432b0fe3e86d6556088f7f7408aca516e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 047/137] fix: dw_tl_fib_spe: stress as documented and
 consistent with the tangent

---
 sfepy/terms/terms_fibres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index 778c37c..c5aab45 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -289,7 +289,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
 
         eps = compute_fibre_strain(green_strain, omega)
 
-        tau0 = fibre_data.tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
+        tau0 = fibre_data.tau0 = sigma * (nm.exp(k * (eps - eps0)) - 1.0)
         # Stable relation for
         # tau = (1.0 / alpha) * nm.log(1.0 + nm.exp(alpha * tau0))
         tau = (1.0 / alpha) * nm.logaddexp(0, alpha * tau0)
-- 
2.43.0


From 0c5a8cf8a47ae778d7fcb1ea9aff879183d2de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 048/137] fix: dw_tl_diffusion: use the mapping of the pressure

---
 sfepy/terms/terms_hyperelastic_tl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 361fcb5..19cc834 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -793,7 +793,7 @@ class DiffusionTLTerm(HyperElasticTLBase):
 
     def get_fargs(self, perm, ref_porosity, virtual, state, parameter,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
-        vgv, _ = self.get_mapping(parameter)
+        vgp, _ = self.get_mapping(state)
 
         name = parameter.name
         fd = self.get_family_data(parameter, self.region, self.integral,
@@ -821,7 +821,7 @@ class DiffusionTLTerm(HyperElasticTLBase):
             raise ValueError('unsupported evaluation mode in %s! (%s)'
                              % (self.name, mode))
 
-        return grad, perm, ref_porosity, fd.mtx_f, fd.det_f, vgv, fmode
+        return grad, perm, ref_porosity, fd.mtx_f, fd.det_f, vgp, fmode
 
     def get_eval_shape(self, perm, ref_porosity, virtual, state, parameter,
                        mode=None, term_mode=None, diff_var=None, **kwargs):
-- 
2.43.0


From 6f315dcd503381c8c14dbba57cc19e0e8d1ce4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 049/137] fix: dw_tl_he_ogden: use isochoric stretches
 consistently

---
 sfepy/terms/terms_hyperelastic_tl.py | 66 ++++++++++------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 19cc834..60760c3 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -301,12 +301,13 @@ class OgdenTLTerm(HyperElasticTLBase):
 
     .. math::
         W = \frac{\mu}{\alpha} \, \left(
-            \lambda_1^{\alpha} + \lambda_2^{\alpha} + \lambda_3^{\alpha}
-            - 3 \right) \; ,
+            \bar\lambda_1^{\alpha} + \bar\lambda_2^{\alpha}
+            + \bar\lambda_3^{\alpha} - 3 \right) \; ,
 
-    where :math:`\lambda_k, k=1, 2, 3` are the principal stretches, whose
-    squares are the principal values of the right Cauchy-Green deformation
-    tensor :math:`\mathbf{C}`.
+    where :math:`\bar\lambda_k = J^{-1/3} \lambda_k` are the isochoric
+    principal stretches and :math:`\lambda_k, k=1, 2, 3` are the principal
+    stretches, whose squares are the principal values of the right Cauchy-Green
+    deformation tensor :math:`\mathbf{C}`.
 
     Effective stress (2nd Piola-Kirchhoff) is [2]
 
@@ -318,9 +319,9 @@ class OgdenTLTerm(HyperElasticTLBase):
 
     .. math::
         S^{(k)} = J^{-2/3} \, \left(
-            \mu \, \bar\lambda^{\alpha - 2}
+            \mu \, \bar\lambda_k^{\alpha - 2}
             -\sum_{j=1}^3 \frac{\mu}{3}
-            \frac{\lambda_j^{\alpha}}{\lambda_k^2} \right) \; ,
+            \frac{\bar\lambda_j^{\alpha}}{\bar\lambda_k^2} \right) \; ,
         \quad k = 1, 2, 3 \; .
 
     and :math:`\mathbf{N}^{(k)}`, :math:`k=1, 2, 3` are the eigenvectors of
@@ -355,11 +356,10 @@ class OgdenTLTerm(HyperElasticTLBase):
 
     @staticmethod
     def _get_single_stress(lbds, nks, det_f, coef, exp):
-        a_p = sum(lbds**exp)
-        s_k = [
-            coef * det_f**(-2. / 3) *(
-                lbdi**(exp - 2) - a_p / lbdi**2 / 3)
-            for lbdi, ni in zip(lbds, nks.T)]
+        # Isochoric stretches to exp.
+        b_p = (det_f**(-1. / 3) * lbds)**exp
+        a_p = sum(b_p) / 3
+        s_k = coef * (b_p - a_p) / lbds**2
         out = nm.sum(
             [ski * nm.outer(nki, nki) for ski, nki in zip(s_k, nks.T)], axis=0)
         return out
@@ -387,38 +387,18 @@ class OgdenTLTerm(HyperElasticTLBase):
         return out
 
     @staticmethod
-    def _get_single_tan_mod(total_lbds, nks, det_f, coef, exp):
-        lbds = det_f**(-1/3) * total_lbds
-        _bracket = [
-            (det_f**(-1 / 3) * lbdi)**(exp - 2)
-            -sum([1. / 3 * lbdj**exp / lbdi**2 for lbdj in lbds])
-            for lbdi in lbds]
-        s_k = nm.array([
-            coef * det_f**(-2 / 3) * _bracket_ii
-            for lbdi, _bracket_ii in zip(lbds, _bracket)])
-
-        dj_dlbd = [det_f / lbdj for lbdj in lbds]
-
-        dlbd_dlbd = det_f**(-1/3) * nm.array([[
-            nm.eye(3)[ii, jj] - lbds[ii] / lbds[jj] / 3
-            for jj in range(3)] for ii, dj_dlbdi in enumerate(dj_dlbd)])
-
-        dsk_dlbd_1 = coef * nm.array([[
-            -2 / 3 * det_f**(-5 / 3) * dj_dlbd[ii] * lbds[kk]**(exp - 2)
-            +det_f**(-2/3) * (exp - 2) * lbds[kk]**(exp - 3) * dlbd_dlbd[kk, ii]
+    def _get_single_tan_mod(lbds, nks, det_f, coef, exp):
+        # Isochoric stretches to exp.
+        b_p = (det_f**(-1. / 3) * lbds)**exp
+        a_p = sum(b_p) / 3
+        s_k = coef * (b_p - a_p) / lbds**2
+
+        dsk_dlbd = nm.array([[
+            coef * exp / (lbds[kk]**2 * lbds[ii]) * (
+                b_p[kk] * (float(kk == ii) - 1. / 3) - (b_p[ii] - a_p) / 3)
+            -2. * float(kk == ii) * s_k[kk] / lbds[kk]
             for ii in range(3)] for kk in range(3)])
 
-        dsk_dlbd_2 = coef / 3 * nm.array([[
-            -2 / 3 * det_f**(-5 / 3) * dj_dlbd[ii] * nm.sum([
-                lbds[jj]**exp / lbds[kk]**2
-                for jj in range(3)])
-            +det_f**(-2/3) * nm.sum([
-                exp * lbds[jj]**(exp - 1) / lbds[kk]**2 * dlbd_dlbd[jj, ii]
-                -2 * lbds[jj]**exp / lbds[kk]**3 * dlbd_dlbd[kk, ii]
-                for jj in range(3)])
-            for ii in range(3)] for kk in range(3)])
-        dsk_dlbd = dsk_dlbd_1 - dsk_dlbd_2
-
         tan_mod = nm.zeros((3, 3, 3, 3))
         for mm, nn, pp, qq in zip(*[ind.flatten()
                                     for ind in nm.indices(tan_mod.shape)]):
@@ -426,7 +406,7 @@ class OgdenTLTerm(HyperElasticTLBase):
                 tan_mod[mm, nn, pp, qq] += 1. / lbds[jj] * dsk_dlbd[ii, jj] * (
                     nks[ii, mm] * nks[ii, nn] * nks[jj, pp] * nks[jj, qq])
                 if ii != jj:
-                    if lbds[ii] != lbds[jj]:
+                    if abs(lbds[ii] - lbds[jj]) > 1e-6 * lbds[jj]:
                         tan_mod[mm, nn, pp, qq] += (s_k[jj] - s_k[ii]) / \
                             (lbds[jj]**2 - lbds[ii]**2) * (
                                 nks[ii, mm] * nks[jj, nn] * nks[ii, pp]
-- 
2.43.0


From 7e5d4d57caa759d0c7a0ca2d6eaaac0c484552f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 050/137] fix: dw_tl_he_svk: keep the material data intact,
 tangent without doubled shear rows

---
 sfepy/terms/terms_hyperelastic_tl.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 60760c3..3a8e566 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -484,17 +484,15 @@ class SaintVenantKirchhoffTLTerm(HyperElasticTLBase):
 
     def stress_function(self, out, mat, *fargs, **kwargs):
         sym_e = fargs[0]
-        mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0])
+        # Do not modify the material data.
+        mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0]).copy()
         dim = self.region.dim
         mat[:, :, :, dim:] *= 2 # fix shear components
         out[:] = nm.einsum('ijkl,ijl...->ijk...', mat, sym_e)
         return out
 
     def tan_mod_function(self, out, mat, *fargs, **kwargs):
-        mat = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
-        dim = self.region.dim
-        mat[:, :, dim:, :] *= 2 # fix shear components
-        out[:] = mat
+        out[:] = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
         return out
 
 class MooneyRivlinTLTerm(HyperElasticTLBase):
-- 
2.43.0


From f72a75648b55b9940da5ad0f1da25c645f65b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 051/137] fix: VariableTimeStepper: independent state
 snapshots, restore n_step

---
 sfepy/solvers/ts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index d44f6cf..65798b5 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -153,14 +153,15 @@ class VariableTimeStepper(TimeStepper):
         self.set_from_data(ts.t0, ts.t1, ts.dt, ts.n_step0, step=0)
 
     def get_state(self):
-        return {'step' : self.step, 'dt' : self.dt, 'times' : self.times}
+        return {'step' : self.step, 'dt' : self.dt, 'times' : self.times[:]}
 
     def set_state(self, step=0, dt=None, times=None, **kwargs):
         assert_(len(times) == (step + 1))
 
         self.step = step
         self.dt = dt
-        self.times = times
+        self.times = list(times)
+        self.n_step = self.step + 1
 
         self.time = self.times[-1]
         self.normalize_time()
-- 
2.43.0


From 0629a55b5d8c1e4d8f419258a1a9ac0122134a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 052/137] fix: VariableTimeStepper: stop at the final time in
 spite of round-off errors

---
 sfepy/solvers/ts.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 65798b5..b05cf5d 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -166,6 +166,16 @@ class VariableTimeStepper(TimeStepper):
         self.time = self.times[-1]
         self.normalize_time()
 
+    def normalize_time(self):
+        TimeStepper.normalize_time(self)
+
+        # The time is a sum of time steps - do not let the accumulated
+        # round-off errors cause an additional step after the final time.
+        eps = (nm.finfo(nm.float64).eps * 4 * (self.step + 1)
+               * max(abs(self.t0), abs(self.t1)))
+        if abs(self.t1 - self.time) < (1e-8 * abs(self.dt) + eps):
+            self.nt = 1.0
+
     def set_n_digit_from_min_dt(self, dt):
         n_step = self._get_n_step(self.t0, self.t1, dt)
         self.n_digit, self.format, self.suffix = get_print_info(n_step)
-- 
2.43.0


From 9d66df8ba2ef553f122fc64fa6368c5732592a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 053/137] fix: time-stepping solvers: default step functions
 keep the state

---
 sfepy/solvers/ts_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..8473e9f 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -29,8 +29,8 @@ def standard_ts_call(call):
                           'nonlinear solver has to be specified!')
 
         init_fun = get_default(init_fun, lambda ts, vec0: vec0)
-        prestep_fun = get_default(prestep_fun, lambda ts, vec: None)
-        poststep_fun = get_default(poststep_fun, lambda ts, vec: None)
+        prestep_fun = get_default(prestep_fun, lambda ts, vec: vec)
+        poststep_fun = get_default(poststep_fun, lambda ts, vec: vec)
 
         _nls = nls
         if status is not None:
-- 
2.43.0


From 908400151facb79654cdcd2a5a56e85f2c4ccb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 054/137] fix: MUMPS solver: symmetry check of diagonal
 matrices and of the sparsity pattern

---
 sfepy/solvers/ls.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 4f47a90..73feb78 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -882,11 +882,17 @@ class MUMPSSolver(LinearSolver):
         if idxs_l.shape[0] != idxs_u.shape[0]:
             return False
 
-        iu = nm.lexsort((row[idxs_u], col[idxs_u]))
-        il = nm.lexsort((col[idxs_l], row[idxs_l]))
+        if not len(idxs_u): # Diagonal matrix.
+            return True
 
-        err = nm.abs(data[idxs_u[iu]] - data[idxs_l[il]])
-        if nm.any(err/nm.abs(data[idxs_u].max()) >= tol):
+        iu = idxs_u[nm.lexsort((row[idxs_u], col[idxs_u]))]
+        il = idxs_l[nm.lexsort((col[idxs_l], row[idxs_l]))]
+
+        if ((row[iu] != col[il]).any() or (col[iu] != row[il]).any()):
+            return False
+
+        err = nm.abs(data[iu] - data[il])
+        if nm.any(err >= tol * nm.abs(data[iu]).max()) and err.any():
             return False
 
         return True
-- 
2.43.0


From d2c057806c465b507d719705bdd4df6a82f1415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 055/137] fix: linear solvers: forget the digest of a previous
 matrix when given a non-CSR matrix

---
 sfepy/solvers/ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 73feb78..bb7ffbb 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -46,7 +46,7 @@ def _get_cs_matrix_hash(mtx, chunk_size=100000):
 
 def _is_new_matrix(mtx, mtx_digest, force_reuse=False):
     if not isinstance(mtx, sps.csr_array):
-        return True, mtx_digest
+        return True, (0, '') # Invalidate the digest of the previous matrix.
 
     if force_reuse:
         return False, mtx_digest
-- 
2.43.0


From 6c950de719c3d0c2d682065b813896f0333d8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 056/137] fix: MUMPS solver: do not reuse an instance with a
 wrong symmetry or data type flag

---
 sfepy/solvers/ls.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index bb7ffbb..ee9ad0b 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -902,7 +902,7 @@ class MUMPSSolver(LinearSolver):
                           'cannot import MUMPS!')
 
         LinearSolver.__init__(self, conf, mumps=aux['mumps'], mumps_ls=None,
-                              mumps_presolved=False, **kwargs)
+                              mumps_kind=None, mumps_presolved=False, **kwargs)
         self.clear()
 
     @standard_call
@@ -933,11 +933,16 @@ class MUMPSSolver(LinearSolver):
                 mtx = mtx.tocoo()
 
             is_sym = self.coo_is_symmetric(mtx)
+            system = 'complex' if mtx.dtype.name.startswith('complex')\
+                else 'real'
+
+            if self.mumps_kind != (system, is_sym):
+                # The existing MUMPS instance cannot be used for this matrix.
+                self.clear()
 
             if self.mumps_ls is None:
+                self.mumps_kind = (system, is_sym)
                 if self.mumps.__name__ == 'mumpspy':
-                    system = 'complex' if mtx.dtype.name.startswith('complex')\
-                        else 'real'
                     mem_relax = self.conf.memory_relaxation
                     self.mumps_ls = self.mumps.MumpsSolver(system=system,
                                                            is_sym=is_sym,
-- 
2.43.0


From 70770f84542c0f538f30f12b3d766640aac6618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 057/137] fix: ls.cholesky: support scikit-sparse 0.5

---
 sfepy/solvers/ls.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index ee9ad0b..1169c66 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -984,10 +984,16 @@ class CholeskySolver(ScipyDirect):
         LinearSolver.__init__(self, conf, solve=None, **kwargs)
         self.sls = None
 
-        aux = try_imports(['from sksparse.cholmod import cholesky'],
+        aux = try_imports(['from sksparse.cholmod import cho_factor',
+                           'from sksparse.cholmod import cholesky'],
                           'cannot import cholesky sparse solver!')
-        if 'cholesky' in aux:
+        if 'cho_factor' in aux: # scikit-sparse >= 0.5.
+            cho_factor = aux['cho_factor']
+            self.sls = lambda mtx: cho_factor(mtx).solve
+
+        elif 'cholesky' in aux:
             self.sls = aux['cholesky']
+
         else:
             raise ValueError('cholesky not available!')
 
-- 
2.43.0


From 124e7c811d216b0b43a4ef5e3c135a55f4d25d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 058/137] fix: ls.scipy_iterative: support methods without the
 absolute tolerance (minres)

---
 sfepy/solvers/ls.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 1169c66..ab5c0de 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -1,4 +1,5 @@
 import hashlib
+import inspect
 
 import numpy as nm
 import warnings
@@ -356,14 +357,14 @@ class ScipyIterative(LinearSolver):
             if version.parse(sp.__version__) >= version.parse('1.4.0'):
                 solver_kwargs.update({'callback_type' : 'legacy'})
 
-        try:
-            sol, info = self.solver(mtx, rhs, x0=x0, atol=eps_a, rtol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
-        except TypeError:
-            sol, info = self.solver(mtx, rhs, x0=x0, tol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
+        # minres() has no `atol`, `rtol` was called `tol` before SciPy 1.12.
+        params = inspect.signature(self.solver).parameters
+        solver_kwargs['rtol' if 'rtol' in params else 'tol'] = eps_r
+        if 'atol' in params:
+            solver_kwargs['atol'] = eps_a
+
+        sol, info = self.solver(mtx, rhs, x0=x0, maxiter=i_max,
+                                callback=iter_callback, **solver_kwargs)
 
         output('%s: %s convergence: %s (%s, %d iterations)'
                % (self.conf.name, self.conf.method,
-- 
2.43.0


From 5749931dc17a9b40332206ebfc7293f2ee7be371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 059/137] fix: iterative linear solvers: call the callback
 given in the configuration

---
 sfepy/solvers/ls.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index ab5c0de..66cacc5 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -320,7 +320,7 @@ class ScipyIterative(LinearSolver):
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
                                     self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
+        callback = get_default(kwargs.get('callback', None),
                                self.conf.callback)
 
         self.iter = 0
@@ -339,7 +339,8 @@ class ScipyIterative(LinearSolver):
             output(msg, verbose=conf.verbose > 1)
 
             # Call an optional user-defined callback.
-            callback(sol)
+            if callback is not None:
+                callback(sol)
 
         precond = setup_precond(mtx, context)
 
@@ -468,7 +469,7 @@ class PyAMGSolver(LinearSolver):
         eps_r = get_default(eps_r, self.conf.eps_r)
         i_max = get_default(i_max, self.conf.i_max)
 
-        callback = get_default(kwargs.get('callback', lambda sol: None),
+        callback = get_default(kwargs.get('callback', None),
                                self.conf.callback)
 
         self.iter = 0
@@ -487,7 +488,8 @@ class PyAMGSolver(LinearSolver):
             output(msg, verbose=conf.verbose > 1)
 
             # Call an optional user-defined callback.
-            callback(sol)
+            if callback is not None:
+                callback(sol)
 
         is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest,
                                             force_reuse=conf.force_reuse)
@@ -572,7 +574,7 @@ class PyAMGKrylovSolver(LinearSolver):
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
                                     self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
+        callback = get_default(kwargs.get('callback', None),
                                self.conf.callback)
 
         self.iter = 0
@@ -591,7 +593,8 @@ class PyAMGKrylovSolver(LinearSolver):
             output(msg, verbose=conf.verbose > 1)
 
             # Call an optional user-defined callback.
-            callback(sol)
+            if callback is not None:
+                callback(sol)
 
         precond = setup_precond(mtx, context)
 
-- 
2.43.0


From f6e2730f1ce2f34e987811075dd95c2c2e3d4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 060/137] fix: iterative linear solvers: residual reported in
 verbose mode (sparse arrays)

---
 sfepy/solvers/ls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 66cacc5..53ab5f4 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -329,7 +329,7 @@ class ScipyIterative(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.method not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
@@ -478,7 +478,7 @@ class PyAMGSolver(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.accel not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
@@ -583,7 +583,7 @@ class PyAMGKrylovSolver(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.method not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
-- 
2.43.0


From a88af0a2891a18dde90b0d8656cdf6961f321182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 061/137] fix: automatic solver selection: do not change the
 given configuration

---
 sfepy/solvers/auto_fallback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/auto_fallback.py b/sfepy/solvers/auto_fallback.py
index f8407a4..b8c93e6 100644
--- a/sfepy/solvers/auto_fallback.py
+++ b/sfepy/solvers/auto_fallback.py
@@ -23,7 +23,7 @@ class AutoFallbackSolver(Solver):
             dconf = conf.to_dict()
 
         else:
-            dconf = conf
+            dconf = conf.copy()
 
         dconf.pop('kind', None)
         ls_solvers = [(ls, Struct(**_conf) + Struct(kind=ls) + Struct(**dconf))
-- 
2.43.0


From bc89088df59aeef1de9c7fa97f13233dd772190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 062/137] fix: eig.scipy: select eigenvalues of dense problems
 by their magnitude

---
 sfepy/solvers/eigen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/solvers/eigen.py b/sfepy/solvers/eigen.py
index d58589f..e38b1cc 100644
--- a/sfepy/solvers/eigen.py
+++ b/sfepy/solvers/eigen.py
@@ -151,6 +151,8 @@ class ScipyEigenvalueSolver(EigenvalueSolver):
             ii = nm.argsort(eigs)
 
         if n_eigs is not None and (conf.method in ('eig', 'eigh')):
+            # Also real eigenvalues can be negative.
+            ii = nm.argsort(nm.abs(eigs))
             if conf.which == 'SM':
                 ii = ii[:n_eigs]
 
-- 
2.43.0


From 31e2d344806fd170661cd221328d0ef63ae9172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 063/137] fix: eig.qevp: support scikit-sparse 0.5 in the
 cholesky method

---
 sfepy/solvers/qeigen.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/qeigen.py b/sfepy/solvers/qeigen.py
index 2d0c203..05d3d80 100644
--- a/sfepy/solvers/qeigen.py
+++ b/sfepy/solvers/qeigen.py
@@ -80,13 +80,22 @@ class LQuadraticEVPSolver(QuadraticEVPSolver):
                                      [None, mtx_eye]])
 
         elif conf.method == 'cholesky':
-            from sksparse.cholmod import cholesky
+            try:
+                from sksparse.cholmod import cho_factor # scikit-sparse >= 0.5.
+
+            except ImportError:
+                from sksparse.cholmod import cholesky
+
+                factor = cholesky(mtx_m)
+                perm, mtx_fl = factor.P(), factor.L()
+
+            else:
+                factor = cho_factor(sps.csc_array(mtx_m), lower=True)
+                perm, mtx_fl = factor.get_perm(), factor.get_factor('LL')
 
-            factor = cholesky(mtx_m)
-            perm = factor.P()
             ir = nm.arange(len(perm))
             mtx_p = sps.coo_array((nm.ones_like(perm), (ir, perm)))
-            mtx_l = mtx_p.T @ factor.L()
+            mtx_l = mtx_p.T @ mtx_fl
 
             if conf.debug:
                 ssym['|S - LL^T|'] = max_diff_csr(mtx_m, mtx_l @ mtx_l.T)
-- 
2.43.0


From 4fa8122f6641a6dcee9a323f20e51397247d89b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 064/137] fix: eig.scipy: sparse methods without the
 eigenvectors argument

---
 sfepy/solvers/eigen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/eigen.py b/sfepy/solvers/eigen.py
index e38b1cc..5e4b52a 100644
--- a/sfepy/solvers/eigen.py
+++ b/sfepy/solvers/eigen.py
@@ -133,10 +133,10 @@ class ScipyEigenvalueSolver(EigenvalueSolver):
                 inv_op_a = self.ssla.LinearOperator(mtx_a.shape, matvec=matvec)
                 out = eig(fake_mtx_a, M=mtx_b, k=n_eigs, which=conf.which,
                           OPinv=inv_op_a,
-                          return_eigenvectors=eigenvectors, **kwargs)
+                          return_eigenvectors=bool(eigenvectors), **kwargs)
             else:
                 out = eig(mtx_a, M=mtx_b, k=n_eigs, which=conf.which,
-                          return_eigenvectors=eigenvectors, **kwargs)
+                          return_eigenvectors=bool(eigenvectors), **kwargs)
 
         if eigenvectors:
             eigs = out[0]
-- 
2.43.0


From 9e7ef9f5113de335a0827a8b817e2a5e96471924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 065/137] fix: eig.qevp: eigenvectors of zero eigenvalues in
 the companion method

---
 sfepy/solvers/qeigen.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/qeigen.py b/sfepy/solvers/qeigen.py
index 05d3d80..728f5a5 100644
--- a/sfepy/solvers/qeigen.py
+++ b/sfepy/solvers/qeigen.py
@@ -59,6 +59,22 @@ class LQuadraticEVPSolver(QuadraticEVPSolver):
          'If True, print debugging information.'),
     ]
 
+    @staticmethod
+    def get_vectors(vecs, mtx_m, conf):
+        """
+        Get the eigenvectors `x` from the eigenvectors of the linear problem,
+        that are `[w * x, x]` for the companion method - use the larger block,
+        as the first one is zero for zero `w`.
+        """
+        n = mtx_m.shape[0]
+        out = vecs[:n, :]
+        if conf.method == 'companion':
+            v2 = vecs[n:, :]
+            out = nm.where(nm.linalg.norm(out, axis=0)
+                           >= nm.linalg.norm(v2, axis=0), out, v2)
+
+        return out
+
     @standard_call
     def __call__(self, mtx_m, mtx_d, mtx_k, n_eigs=None,
                  eigenvectors=None, status=None, conf=None):
@@ -125,7 +141,7 @@ class LQuadraticEVPSolver(QuadraticEVPSolver):
 
             if eigenvectors:
                 eigs, vecs = out
-                out = (eigs, vecs[:mtx_m.shape[0], :])
+                out = (eigs, self.get_vectors(vecs, mtx_m, conf))
 
                 if conf.debug:
                     res = mtx_a.dot(vecs) - eigs * mtx_b.dot(vecs)
@@ -137,7 +153,7 @@ class LQuadraticEVPSolver(QuadraticEVPSolver):
 
             if eigenvectors:
                 eigs, vecs = out
-                out = (1.0 / eigs, vecs[:mtx_m.shape[0], :])
+                out = (1.0 / eigs, self.get_vectors(vecs, mtx_m, conf))
 
                 if conf.debug:
                     res = (1.0 / eigs) * mtx_b.dot(vecs) -  mtx_a.dot(vecs)
-- 
2.43.0


From c4e1715851432bcb91b2c4731606beeffb3caff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 066/137] fix: ts.bathe: evaluate the sub-steps in their times

---
 sfepy/solvers/ts_solvers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 8473e9f..8099bcb 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -1310,13 +1310,18 @@ class BatheTS(ElastodynamicsBaseTS):
         Solve a single time step.
         """
         dt = ts.dt
+        # Set time to t_{n+1/2} - the end of the first sub-step.
+        ts.set_substep_time(-0.5 * dt)
+        vec = prestep_fun(ts, vec)
+
         ut, vt, at = unpack(vec)
         nlst1 = self.create_nlst1(nls, dt, ut, vt, at)
         ut1 = nlst1(ut)
         vt1 = nlst1.v(ut1)
         at1 = nlst1.a(vt1)
 
-        ts.set_substep_time(0.5 * dt)
+        # Restore t_{n+1}.
+        ts.restore_step_time()
 
         vec1 = pack(ut1, vt1, at1)
         vec1 = prestep_fun(ts, vec1)
@@ -1326,8 +1331,6 @@ class BatheTS(ElastodynamicsBaseTS):
         vt2 = nlst2.v(ut2)
         at2 = nlst2.a(vt2)
 
-        ts.restore_step_time()
-
         vec2 = pack(ut2, vt2, at2)
 
         return vec2
-- 
2.43.0


From e8bb77dc18abb23cd3c2e1ab861911ba4008baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 067/137] fix: elastodynamics time step controllers: guess the
 initial step

---
 sfepy/solvers/ts_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
-- 
2.43.0


From e09c5f939240f60bd35e86d08546b47243fd969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 068/137] fix: auto_transform_equations: keep term signs, terms
 without state variables and materials

---
 sfepy/solvers/ts_solvers.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 8099bcb..042cb3a 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -402,22 +402,22 @@ def transform_equations_ed(equations, materials):
     variables = equations.variables
     for eq in equations:
         for term in eq.terms:
+            ders = []
             for name in term.names.state:
                 der = term.arg_derivatives[name]
-                if ((der is not None) and
-                    isinstance(der, int) and
-                    (der > 0)):
+                if isinstance(der, int) and (der > 0):
                     new_var_primary.add(name)
-                    if der == 2:
-                        eq_mass.append(term)
+                    ders.append(der)
 
-                    else:
-                        eq_damping.append(term)
+            if not len(ders):
+                # Includes terms without state variables, e.g. loads.
+                eq_other.append(term)
 
-                else:
-                    eq_other.append(term)
+            elif max(ders) == 2:
+                eq_mass.append(term)
 
-                continue
+            else:
+                eq_damping.append(term)
 
     assert len(new_var_primary) == 1
     uname = new_var_primary.pop()
@@ -440,23 +440,23 @@ def transform_equations_ed(equations, materials):
                       primary_var_name=dduname),
     ])
     for it, term in enumerate(eq_mass.copy()):
-        aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
-        arg_str = aux.replace(f',{vname},', f',{ddvname},')
+        args = [ii.strip() for ii in term.arg_str.split(',')]
+        arg_str = ','.join([ddvname if ii == vname else ii for ii in args])
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
-
         eq_mass[it] = new_term
 
     for it, term in enumerate(eq_damping.copy()):
-        aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
-        arg_str = aux.replace(f',{vname},', f',{dvname},')
+        args = [ii.strip() for ii in term.arg_str.split(',')]
+        arg_str = ','.join([dvname if ii == vname else ii for ii in args])
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
-
         eq_damping[it] = new_term
 
     if not len(eq_damping):
-- 
2.43.0


From 5e7f24885e7001b1039c1deaead750d688c02196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 069/137] fix: elastodynamics solvers: return the state of the
 last step

---
 sfepy/solvers/ts_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 042cb3a..9cd84e6 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -756,7 +756,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
 
             vec = vect
 
-        return vec
+        return vect
 
 class VelocityVerletTS(ElastodynamicsBaseTS):
     """
-- 
2.43.0


From efeabb46f663d91283533cab51f699f497079de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 070/137] fix: Term.assemble_to: support variables with all
 DOFs fixed

---
 sfepy/terms/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index f608130..0512e3c 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -1664,7 +1664,8 @@ class Term(Struct):
                         aux = vvar._variables.adi.indx[vvar.get_primary_name()]
                         irs = slice(aux.start, aux.stop + 1)
 
-                    max_in_rows[vvar.name] = nm.diff(asm_obj.indptr[irs]).max()
+                    nnzs = nm.diff(asm_obj.indptr[irs])
+                    max_in_rows[vvar.name] = nnzs.max(initial=0)
 
                 max_in_row = max_in_rows[vvar.name]
 
-- 
2.43.0


From c2ec26699b1c5ac00eb634ef06713c4218719541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:04 +0000
Subject: [PATCH 071/137] fix: average_force LCBC: support dependent fields
 without rotation DOFs

---
 sfepy/discrete/fem/lcbc_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 6389522..2b6455a 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -314,7 +314,7 @@ class AverageForceOperator(LCBCOperator):
 
         else:
             # As above, but S = I(dim) -> simplified code.
-            mtx_ws = (nm.eye(dim) * sweights[..., None])
+            mtx_ws = (nm.eye(dim) * sweights[:, :dim, None])
             mtx_ix = mtx_ws.sum(axis=0)
             mtx_x = nm.linalg.inv(mtx_ix)
 
-- 
2.43.0


From ea59e63a3c981e861a921135906e520d42ecda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:04 +0000
Subject: [PATCH 072/137] fix: rigid_twist LCBC: thread translation along the
 axis only

---
 sfepy/discrete/fem/lcbc_operators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 2b6455a..0fbbef0 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -423,8 +423,10 @@ class RigidTwistOperator(MRLCBCOperator):
         mtx_mr = _create_spin_matrix(mr).reshape((n_mnod * dim, -1))
         mtx_sr = _create_spin_matrix(sr).reshape((n_snod * dim, -1))
 
-        mtx_mw = -0.5 * (mtx_mr + thread) @ self.axis
-        mtx_sw = 0.5 * (mtx_sr + thread) @ self.axis
+        mtx_mw = -0.5 * (mtx_mr @ self.axis
+                         + thread * nm.tile(self.axis, n_mnod))
+        mtx_sw = 0.5 * (mtx_sr @ self.axis
+                        + thread * nm.tile(self.axis, n_snod))
 
         mtx = nm.vstack((
             nm.hstack((mtx_me, mtx_mr, mtx_mw[:, None])),
-- 
2.43.0


From b09854d417d6436adce01a38601041baceff73f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 073/137] fix: model-reduction LCBCs: treat DOFs removed by
 EPBCs consistently

---
 sfepy/discrete/fem/lcbc_operators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 0fbbef0..f5f9bb8 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -85,18 +85,18 @@ class MRLCBCOperator(LCBCOperator):
         if len(master) == 0: return
 
         # Remove rows with master DOFs.
-        remove = nm.searchsorted(nm.sort(dofs), master)
-        keep = nm.setdiff1d(nm.arange(len(dofs)), remove)
-
-        mtx = self.mtx[keep]
+        keep = nm.where(~nm.isin(dofs, master))[0]
+        self.ameq = self.ameq[keep]
+        if self.get('rhs', None) is not None:
+            self.rhs = self.rhs[keep]
 
         # Remove empty columns, update new DOF count.
-        mtx = mtx.tocsc()
+        mtx = sp.csc_array(sp.csr_array(self.mtx)[keep])
         indptr = nm.unique(mtx.indptr)
         self.mtx = sp.csc_array((mtx.data, mtx.indices, indptr),
                                 shape=(mtx.shape[0], indptr.shape[0] - 1))
         self.n_mdof = self.mtx.shape[0]
-        self.n_dof_new = self.mtx.shape[1]
+        self.n_new_dof = self.mtx.shape[1]
 
 def _create_spin_matrix(coors):
     n_nod, dim = coors.shape
-- 
2.43.0


From d01d6423eaf9746d5ce4acfa625f244b972a637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 074/137] fix: nodal_combination LCBC: keep DOFs not involved
 in the constraints

---
 sfepy/discrete/fem/lcbc_operators.py | 45 ++++++++--------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index f5f9bb8..d3d5899 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -687,48 +687,27 @@ class NodalLCOperator(MRLCBCOperator):
 
             assert_(len(sol) == n_ceq)
 
-            imasters = []
-            ifixed = []
-            islaves = set()
-            ccs = []
-            for key, _poly in sol.items():
-                imaster = int(key.name[1:])
-                imasters.append(imaster)
-
-                if not isinstance(_poly, sm.Float):
-                    poly = _poly.as_poly()
-
-                    # Workaround for poly.all_coeffs() not applicable to
-                    # multivariate polynomials.
-                    coefs = []
-                    for ii, uu in enumerate(us):
-                        if poly.has(uu):
-                            coefs.append(poly.coeff_monomial(uu))
-                            islaves.add(ii)
-                    coefs.append(poly.TC())
-                    ccs.append(coefs)
-
-                else: # Degenerated constraint - fixed master.
-                    ifixed.append(imaster)
-                    ccs.append([float(_poly)])
-
-            islaves = sorted(islaves)
-
-            for ii, imaster in enumerate(imasters):
-                coefs = ccs[ii]
+            imasters = sorted(int(key.name[1:]) for key in sol)
+            # DOFs not involved in the constraints are kept as slaves.
+            islaves = [ii for ii in range(dpn) if ii not in imasters]
 
-                em = dpn * im + imaster
-                rhss[em] = coefs[-1]
+            for imaster in imasters:
+                # Degenerated constraint without slaves - fixed master.
+                poly = sm.Poly(sol[us[imaster]], *us)
 
-                if imaster in ifixed: continue
+                em = dpn * im + imaster
+                rhss[em] = poly.coeff_monomial(1)
 
                 # Master DOF is expressed in terms of slave DOFs.
                 for ii, islave in enumerate(islaves):
+                    coef = poly.coeff_monomial(us[islave])
+                    if coef == 0: continue
+
                     es = ii + n_new
 
                     rows.append(em)
                     cols.append(es)
-                    data.append(coefs[ii])
+                    data.append(coef)
 
             # Slave DOFs are copied.
             for ii, islave in enumerate(islaves):
-- 
2.43.0


From 699c79051db3ad2d63c2054cfaa0c58b97684bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 075/137] fix: matrix graph: support variables without active
 DOFs

---
 sfepy/discrete/equations.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 7cdfb01..85671f7 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -46,6 +46,12 @@ def get_expression_arg_names(expression, strip_dots=True):
 
     return set(args)
 
+def _get_block_names(di):
+    return [name for name in di.var_names if name not in di.shared_dofs]
+
+def _get_block_index(di, name):
+    return _get_block_names(di).index(di.shared_dofs.get(name, name))
+
 def create_dof_graph(rdc, cdc, shape, active_only=False):
     """
     Create the DOF graph corresponding to a row and column DOF connectivity.
@@ -92,12 +98,14 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
         The matrix graph.
     """
     blocks = []
-    roffs = [ii.start for ii in rdi.indx.values()]
-    coffs = [ii.start for ii in cdi.indx.values()]
-    nrs = [ii.stop - ii.start for ii in rdi.indx.values()]
-    ncs = [ii.stop - ii.start for ii in cdi.indx.values()]
-
-    nbr, nbc = max(irs) + 1, max(ics) + 1
+    rindx = [rdi.indx[name] for name in _get_block_names(rdi)]
+    cindx = [cdi.indx[name] for name in _get_block_names(cdi)]
+    roffs = [ii.start for ii in rindx]
+    coffs = [ii.start for ii in cindx]
+    nrs = [ii.stop - ii.start for ii in rindx]
+    ncs = [ii.stop - ii.start for ii in cindx]
+
+    nbr, nbc = len(nrs), len(ncs)
     blocks = [[0] * nbc for ir in range(nbr)]
     for ii, rdc in enumerate(rdcs):
         cdc = cdcs[ii]
@@ -130,7 +138,7 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
     for ir, ic in cycle((nbr, nbc)):
         if isinstance(blocks[ir][ic], int):
-            blocks[ir][ic] = None
+            blocks[ir][ic] = sp.coo_array((nrs[ir], ncs[ic]), dtype=bool)
 
     graph = sp.block_array(blocks, format='csr')
 
@@ -550,15 +558,11 @@ class Equations(Container):
                 rdcs.append(rdc)
                 cdcs.append(cdc)
 
-                irs.append(rdi.indx[rvar.get_primary_name()].start)
-                ics.append(cdi.indx[cvar.get_primary_name()].start)
+                irs.append(_get_block_index(rdi, rvar.get_primary_name()))
+                ics.append(_get_block_index(cdi, cvar.get_primary_name()))
 
                 shared.add(dc_key)
 
-        # Replace offsets by their orders.
-        _, irs = nm.unique(irs, return_inverse=True)
-        _, ics = nm.unique(ics, return_inverse=True)
-
         return rdcs, cdcs, irs, ics
 
     def create_matrix_graph(self, any_dof_conn=False, rdcs=None, cdcs=None,
-- 
2.43.0


From 83c2c156f97aa4c41e81d637cd2373f69bc0276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:14 +0000
Subject: [PATCH 076/137] fix: Problem.create_evaluable: prefer variables given
 in var_dict

---
 sfepy/discrete/problem.py  | 2 +-
 sfepy/terms/terms_basic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index d80fe11..64c1bdd 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1795,7 +1795,7 @@ class Problem(Struct):
         if try_equations and self.equations is not None:
             # Make a copy, so that possible variable caches are preserved.
             for key, var in self.equations.variables.as_dict().items():
-                if key in variables:
+                if key in variables.names:
                     continue
                 var = var.copy(name=key)
                 if not preserve_caches:
diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index d9a90e4..d907df0 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -85,7 +85,7 @@ class IntegrateTerm(Term):
 
         val_qp = self.get(parameter, 'val')
         if material is not None:
-            val_qp *= material
+            val_qp = val_qp * material
 
         fmode = {'eval' : 0, 'el_avg' : 1, 'qp' : 2}.get(mode, 1)
         if term_mode == 'flux':
-- 
2.43.0


From f82809f286a53c33cb457841aaf03f300a17825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 077/137] fix: Equations: evaluate terms of the same name
 separately with by_terms

---
 sfepy/discrete/equations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 85671f7..da58341 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -864,10 +864,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
@@ -960,10 +960,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
-- 
2.43.0


From b44b5f17497db36c3e0215932d80532386e16209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 078/137] fix: interp_v_vals_to_n_vals: support complex values

---
 sfepy/discrete/fem/fields_nodal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index 58b7358..b4af5c8 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -419,7 +419,8 @@ class H1NodalVolumeField(H1NodalMixin, FEField):
 
         else:
             dim = vec.shape[1]
-            enod_vol_val = nm.zeros((self.n_nod, dim), dtype=nm.float64)
+            dtype = nm.result_type(vec.dtype, nm.float64)
+            enod_vol_val = nm.zeros((self.n_nod, dim), dtype=dtype)
 
             coors = self.poly_space.node_coors
 
-- 
2.43.0


From 8f775bb0223bc9c10ab933b0a3ff3cc0ec028e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 079/137] fix: Variable.set_data: store data of the given
 history step

---
 sfepy/discrete/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index f052efa..a215c34 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1306,8 +1306,10 @@ class Variable(Struct):
                              % (step, -(len(self.data) - 1)))
 
         else:
-            self.data[step] = data
-            self.indx = indx
+            # Use a view of the actual data, as the data of various steps can
+            # be in differently sized arrays.
+            self.data[-step] = data[indx]
+            self.indx = slice(0, n_data_dof)
 
         if not preserve_caches:
             self.invalidate_evaluate_cache(step=step)
-- 
2.43.0


From d73246b4e7a687297f6bddfc9be7ce07bf7dcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 080/137] fix: FieldVariable: do not return stale cached
 evaluations

---
 sfepy/discrete/variables.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index a215c34..c2c9415 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1216,6 +1216,7 @@ class Variable(Struct):
         """
         if self.history is None: return
 
+        is_initial = self.step == 0
         self.step = ts.step + 1
 
         if self.history > 0:
@@ -1516,10 +1517,7 @@ class FieldVariable(Variable):
 
         # Field nodes values.
         data = self.field.interp_v_vals_to_n_vals(data_vertex)
-        data = data.ravel()
-        self.indx = slice(0, len(data))
-
-        self.data[step] = data
+        self.set_data(data, step=step)
 
     def set_from_mesh_vertices(self, data):
         """
@@ -1666,9 +1664,15 @@ class FieldVariable(Variable):
         This should be done, for example, prior to every nonlinear
         solver iteration.
         """
+        # The time derivative in the next step depends on the given step. In
+        # the initial time step, the previous step data are the current data.
+        steps = [step, step + 1]
+        if (self.step == 0) and (step == 0):
+            steps.append(-1)
+
         for step_cache in self.evaluate_cache.values():
             for key in list(step_cache.keys()):
-                if key == step: # Given time step to clear.
+                if key in steps: # Given time step to clear.
                     step_cache.pop(key)
 
     def evaluate(self, mode='val',
@@ -1746,6 +1750,8 @@ class FieldVariable(Variable):
         geo, _, key = field.get_mapping(region, integral, integration,
                                         return_key=True)
         key += (time_derivative, trace_region)
+        if time_derivative is not None:
+            key += (get_default(dt, self.dt),)
 
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
-- 
2.43.0


From 5b5aa4cbe2f0f75c51e62948f1cc6f65a674b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 081/137] fix: FieldVariable.get_state_in_region: use data of
 the given step

---
 sfepy/discrete/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index c2c9415..dc13232 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1800,9 +1800,9 @@ class FieldVariable(Variable):
         eq = nm.empty((len(nods) * self.n_components,), dtype=nm.int32)
         for idof in range(self.n_components):
             eq[idof::self.n_components] = self.n_components * nods \
-                                          + idof + self.indx.start
+                                          + idof
 
-        out = self.data[step][eq]
+        out = self(step=step)[eq]
         if reshape:
             out.shape = (len(nods), self.n_components)
 
-- 
2.43.0


From ce43b0f7374d37932742caa768d0446b93d2d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 082/137] fix: Variable.advance: shift history without
 modifying given data, advance caches

---
 sfepy/discrete/variables.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index dc13232..1b86538 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1227,25 +1227,28 @@ class Variable(Struct):
                 if self.data[ii] is None:
                     self.data[ii] = self.data[ii-1].copy()
 
-            for ii in range(self.history, 0, -1):
-                self.data[ii][self.indx] = self.data[ii - 1][self.indx]
+            for ii in range(self.history, 1, -1):
+                self.data[ii] = self.data[ii-1]
+
+            self.data[1] = self.data[0].copy()
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
-                steps = sorted(step_cache.keys())
-                for step in steps:
-                    if step is None:
-                        # Special caches with possible custom advance()
-                        # function.
-                        for key, val in step_cache[step].items():
-                            if hasattr(val, '__advance__'):
-                                val.__advance__(ts, val)
-
-                    elif -step < self.history:
-                        step_cache[step-1] = step_cache[step]
-
-                if len(steps) and (steps[0] is not None):
-                    step_cache.pop(steps[-1])
+                steps = [step for step in step_cache.keys()
+                         if step is not None]
+                caches = {step : step_cache.pop(step) for step in steps}
+                # In the initial step, the previous step data and the time
+                # derivatives are based on the current data only.
+                if not is_initial:
+                    for step, cache in caches.items():
+                        if -step < self.history:
+                            step_cache[step-1] = cache
+
+                if None in step_cache:
+                    # Special caches with possible custom advance() function.
+                    for key, val in step_cache[None].items():
+                        if hasattr(val, '__advance__'):
+                            val.__advance__(ts, val)
 
     def init_data(self, step=0):
         """
-- 
2.43.0


From aedafd811719a7c142f7d97b4a6863bf62904607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:36 +0000
Subject: [PATCH 083/137] fix: Material.get_data: use the given key with names
 in a dictionary

---
 sfepy/discrete/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/materials.py b/sfepy/discrete/materials.py
index 563c221..a6e40ed 100644
--- a/sfepy/discrete/materials.py
+++ b/sfepy/discrete/materials.py
@@ -390,8 +390,8 @@ class Material(Struct):
             return self._get_data(key, name)
         else:
             out = Struct()
-            for key, item in name.items():
-                setattr(out, key, self._get_data(key, item))
+            for attr, item in name.items():
+                setattr(out, attr, self._get_data(key, item))
             return out
 
     def _get_data(self, key, name):
-- 
2.43.0


From 998a3221040beccb47df848c50d32bc490f59281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 084/137] fix: distinguish custom and full order integrals in
 cached data

---
 sfepy/discrete/common/fields.py        |  2 +-
 sfepy/discrete/fem/fields_base.py      | 12 ++++++------
 sfepy/discrete/integrals.py            | 18 ++++++++++++++++++
 sfepy/postprocess/plot_quadrature.py   |  2 +-
 sfepy/terms/terms.py                   |  6 +++---
 sfepy/terms/terms_contact.py           |  2 +-
 sfepy/terms/terms_hyperelastic_base.py |  2 +-
 7 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index f5d3262..d691e7e 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -230,7 +230,7 @@ class Field(Struct):
         key : tuple
             The key of the mapping in `mappings` or `mappings0`.
         """
-        key = (region.name, integral.order, integration)
+        key = (region.name, integral.get_key(), integration)
 
         if get_saved:
             out = self.mappings0.get(key, None)
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 6749eb6..10e5dc4 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -650,7 +650,7 @@ class FEField(Field):
         :func:`FEField.create_bqp()`, usually through
         :func:`FEField.create_mapping()`.
         """
-        qpkey = (integral.order, key)
+        qpkey = (integral.get_key(), key)
 
         if qpkey not in self.qp_coors:
             if key[0] == 'b':
@@ -761,7 +761,7 @@ class FEField(Field):
             ps = self.poly_space
 
         _key = key if not from_geometry else 'g' + key
-        bf_key = (integral.order, _key, derivative)
+        bf_key = (integral.get_key(), _key, derivative)
 
         if bf_key not in self.bf:
             ori = self.ori
@@ -782,7 +782,7 @@ class FEField(Field):
         gel = self.gel
 
         sd = self.extra_data[f'sd_{region_name}']
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.get_key(), sd.bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(sd.face_type, integral)
 
@@ -799,7 +799,7 @@ class FEField(Field):
         gel = self.gel
         sd_bkey, face_type = f'b{bkey}', f's{bkey}'
 
-        bqpkey = (integral.order, sd_bkey)
+        bqpkey = (integral.get_key(), sd_bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(face_type, integral)
 
@@ -1336,7 +1336,7 @@ class FEField(Field):
                     fc_map = efc_map[sd.fis[:, 1]] * (-1)
                     for ikey, bkey in enumerate(bkeys):
                         idx = efc_map == bkey
-                        qp0 = self.qp_coors[(integral.order, f'b{bkey}')]
+                        qp0 = self.qp_coors[(integral.get_key(), f'b{bkey}')]
                         nqp0 = qp0.vals.shape[1]
                         qp.vals[idx, :nqp0, :] = qp0.vals[idx]
                         qp.weights[idx, :nqp0] = qp0.weights
@@ -1370,7 +1370,7 @@ class FEField(Field):
                                               fc_bf_map=(fc_map, fcaxes))
                 else:
                     self.create_bqp(region.name, integral)
-                    qp = self.qp_coors[(integral.order, esd.bkey)]
+                    qp = self.qp_coors[(integral.get_key(), esd.bkey)]
 
                     abf = ps.eval_basis(qp.vals[0], transform=transform)
                     bf = abf[..., self.efaces[0]]
diff --git a/sfepy/discrete/integrals.py b/sfepy/discrete/integrals.py
index d2b5ff5..9de3faf 100644
--- a/sfepy/discrete/integrals.py
+++ b/sfepy/discrete/integrals.py
@@ -104,6 +104,24 @@ class Integral(Struct):
         else:
             self.order = int(order)
 
+    def get_key(self):
+        """
+        Get a key identifying the quadrature points - the order of the built-in
+        quadratures. The integrals with equal keys have the same quadrature
+        points and weights.
+        """
+        if self.mode == 'custom':
+            aux = [self.coors, self.weights, self.bounds]
+            return ((self.order, self.tp_fix, self.weight_fix, self.symmetric)
+                    + tuple(nm.asarray(ii, dtype=nm.float64).tobytes()
+                            for ii in aux if ii is not None))
+
+        elif self.full_order:
+            return (self.order, 'full_order')
+
+        else:
+            return self.order
+
     def get_qp(self, geometry):
         """
         Get quadrature point coordinates and corresponding weights for given
diff --git a/sfepy/postprocess/plot_quadrature.py b/sfepy/postprocess/plot_quadrature.py
index ba3a5e4..6f65dcc 100644
--- a/sfepy/postprocess/plot_quadrature.py
+++ b/sfepy/postprocess/plot_quadrature.py
@@ -44,7 +44,7 @@ def _get_bqp(geometry, order):
     field.create_bqp('Surf', integral)
 
     sd = field.extra_data['sd_Surf']
-    qp = field.qp_coors[(integral.order, sd.bkey)]
+    qp = field.qp_coors[(integral.get_key(), sd.bkey)]
 
     output('geometry:', geometry, 'order:', order, 'num. points:',
            qp.vals.shape[1], 'true_order:',
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index 0512e3c..bf52b4b 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -873,7 +873,7 @@ class Term(Struct):
             arg_types = ats
         args = []
 
-        region_name, iorder = self.region.name, self.integral.order
+        qp_key = self.get_qp_key()
         for at in arg_types:
             ii = ats.index(at)
             arg_name = self.arg_names[ii]
@@ -887,7 +887,7 @@ class Term(Struct):
             else:
                 mat, par_name = self.args[ii]
                 if mat is not None:
-                    mat_data = mat.get_data((region_name, iorder), par_name)
+                    mat_data = mat.get_data(qp_key, par_name)
 
                 else:
                     mat_data = None
@@ -1070,7 +1070,7 @@ class Term(Struct):
         """
         Return a key identifying uniquely the term quadrature points.
         """
-        return (self.region.name, self.integral.order)
+        return (self.region.name, self.integral.get_key())
 
     def get_physical_qps(self):
         """
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 56d7256..da147c2 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -28,7 +28,7 @@ class ContactInfo(Struct):
         gname = state.field.gel.name
         ib = 3 if gname == '3_8' else 0
 
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.get_key(), sd.bkey)
         state.field.create_bqp(region.name, integral)
         bqp = state.field.qp_coors[bqpkey]
 
diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index b3eb6fc..4d0e03e 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -53,7 +53,7 @@ class HyperElasticFamilyData(Struct):
         step_cache = state.evaluate_cache.setdefault(self.cache_name, {})
         cache = step_cache.setdefault(step, {})
 
-        key = (region.name, integral.order, geometry_type)
+        key = (region.name, integral.get_key(), geometry_type)
         data_key = key + (derivative,)
 
         if data_key in cache:
-- 
2.43.0


From 7780163242fd4c1d21249fd4fc6f5d28a5064272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:58 +0000
Subject: [PATCH 085/137] fix: meshio: use cell indices local to blocks in cell
 sets

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 1a48e58..501e071 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -531,7 +531,7 @@ class MeshioLibIO(MeshIO):
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-                cell_sets[str(k)].append(cidxs[idxs])
+                cell_sets[str(k)].append(idxs)
 
         if self.file_format in ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu']:
             point_sets, cell_sets = None, None
-- 
2.43.0


From 61e85506cbb13366c6a048210762966cac611575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 086/137] fix: MeshioLibIO.read: skip groups of omitted facets

---
 sfepy/discrete/fem/meshio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 501e071..93e1ed6 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -447,9 +447,11 @@ class MeshioLibIO(MeshIO):
 
                 continue
 
-            if (not omit_facets) or (c.dim == dim):
-                cells.append(c.data)
-                cell_types.append(self.cell_types[(c.type, dim)])
+            if omit_facets and (c.dim != dim):
+                continue
+
+            cells.append(c.data)
+            cell_types.append(self.cell_types[(c.type, dim)])
 
             if cgdata is not None:
                 cgroups.append(nm.asarray(cgdata[ic]).flatten())
-- 
2.43.0


From 0af14d60faf7fc5e9f3a3b77c0913e39a60cc86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 087/137] fix: XYZMeshIO: read 1D meshes

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 93e1ed6..65d3ac6 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -2322,7 +2322,7 @@ class XYZMeshIO(MeshIO):
 
     def _read_coors(self):
         coors = nm.loadtxt(self.filename, ndmin=2)
-        if (coors[:, -1] == 0).all():
+        while (coors.shape[1] > 1) and (coors[:, -1] == 0).all():
             coors = coors[:, :-1].copy()
 
         return coors
-- 
2.43.0


From b40b6f97e07f25b6f00e92f380150f321ecf89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 088/137] fix: sfepy-convert: extract cells by material id

---
 sfepy/scripts/convert_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/scripts/convert_mesh.py b/sfepy/scripts/convert_mesh.py
index 2402d4e..583849c 100644
--- a/sfepy/scripts/convert_mesh.py
+++ b/sfepy/scripts/convert_mesh.py
@@ -396,7 +396,7 @@ def main():
         if isinstance(cgroup, str):
             cgroup = literal_eval(cgroup)
 
-        mesh = mt.get_mesh_by(mesh, cgroup)
+        mesh = mt.get_mesh_by_cgroup(mesh, cgroup)
 
     if options.extract_by_nodegroup is not None:
         ngroup = options.extract_by_nodegroup
-- 
2.43.0


From 9f18d6ee6934d13e8ab0f455394c31a361afdcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 089/137] fix: get_mesh_by_cgroup(), get_mesh_by_ngroup() with
 facet cells

---
 sfepy/discrete/fem/mesh.py | 2 +-
 sfepy/mesh/mesh_tools.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 0e45243..7e7b6c9 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -475,7 +475,7 @@ class Mesh(Struct):
         if desc not in self.descs:
             raise ValueError("'%s' not in %s!" % (desc, self.descs))
 
-        cmesh = self.cmesh if tdim is None else self.cmesh_tdim[tdim]
+        cmesh = self.get_cmesh(desc) if tdim is None else self.cmesh_tdim[tdim]
 
         cells = nm.where(cmesh.cell_types == cmesh.key_to_index[desc])
         cells = cells[0].astype(nm.uint32)
diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index d015cde..a50cc9e 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -484,7 +484,7 @@ def get_mesh_by_cgroup(mesh, value, cell_vertices_only=True):
 
     for desc in mesh.descs:
         conns, cidxs = mesh.get_conn(desc, ret_cells=True)
-        mat_ids = mesh.cmesh.cell_groups[cidxs]
+        mat_ids = mesh.get_cmesh(desc).cell_groups[cidxs]
 
         if isinstance(value, tuple):
             ncidxs = nm.logical_and(mat_ids >= value[0], mat_ids <= value[1])
@@ -543,7 +543,7 @@ def get_mesh_by_ngroup(mesh, value, cell_vertices_only=True):
     new_conns, new_mat_ids, new_descs = [], [], []
     for desc in mesh.descs:
         conns, cidxs = mesh.get_conn(desc, ret_cells=True)
-        mat_ids = mesh.cmesh.cell_groups[cidxs]
+        mat_ids = mesh.get_cmesh(desc).cell_groups[cidxs]
         ncidxs = (remap[conns] >= 0).sum(axis=1) == conns.shape[1]
 
         if ncidxs.sum() > 0:
-- 
2.43.0


From 5cae1d0a8eaff41de88f68daa584bf8ab61d1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:33 +0000
Subject: [PATCH 090/137] fix: read_sparse_matrix_from_hdf5: convert between
 CSR and CSC formats

---
 sfepy/base/ioutils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 882cf76..b10eecd 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -415,16 +415,15 @@ def read_sparse_matrix_from_hdf5(fd, group, output_format=None):
     format = dec(info.format.read())
     dtype = dec(info.dtype.read())
 
-    if output_format is None:
-        constructor = constructors[format]
-    else:
-        constructor = constructors[output_format]
-
     if format in ['csc', 'csr']:
+        constructor = constructors[format]
         mtx = constructor((data.data.read(),
                            data.indices.read(), data.indptr.read()),
                           shape=info.shape.read(), dtype=dtype)
+        if output_format is not None:
+            mtx = mtx.asformat(output_format)
     elif format == 'coo':
+        constructor = constructors[output_format or format]
         mtx = constructor((data.data.read(),
                            nm.c_[data.rows.read(), data.cols.read()].T),
                           shape=info.shape.read(), dtype=dtype)
-- 
2.43.0


From 825aa999787cdd2e694d7d00c950ee5f2f9e9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:33 +0000
Subject: [PATCH 091/137] fix: extract_time_history: vertex variables in
 elements

---
 sfepy/postprocess/time_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 26ac181..4c53f95 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -171,7 +171,7 @@ def extract_time_history(filename, extract, verbose=True):
             th = io.read_time_history(nname, pe.indx)
 
         elif pe.mode == 'e' and mode == 'vertex':
-            conn = mesh.conns[0]
+            conn = mesh.get_conn(mesh.descs[0])
             th = {}
             for iel in pe.indx:
                 ips = conn[iel]
-- 
2.43.0


From 203310e3cae761c8007e47b63c410a7b81c3fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 092/137] fix: average_vertex_var_in_cells() must not modify
 the input histories

---
 sfepy/postprocess/time_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 4c53f95..d5e0588 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -201,7 +201,7 @@ def average_vertex_var_in_cells(ths_in):
             if isinstance(data, dict):
                 for ic, ndata in data.items():
                     if aux[ir] is None:
-                        aux[ir] = ndata
+                        aux[ir] = ndata.copy()
                     else:
                         aux[ir] += ndata
                 aux[ir] /= float(len(data))
-- 
2.43.0


From aae1cc0bfb8c21fb0daa90fea76c7bf91360f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 093/137] fix: MeshioLibIO.read_data(): return data of all cell
 blocks

---
 sfepy/discrete/fem/meshio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 65d3ac6..fb6d37d 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -583,8 +583,13 @@ class MeshioLibIO(MeshIO):
                 key = 'node_groups'
             out[key] = Struct(name=key, mode='vertex', data=aux)
 
+        # Data of all blocks of cells, without facet cells in mixed files.
+        tdim = max(c.dim for c in m.cells)
         for key, data in m.cell_data.items():
-            aux = _fix_shape(data[0]).astype(nm.float64)
+            aux = nm.concatenate([_fix_shape(nm.asarray(data[ic]))
+                                  for ic, c in enumerate(m.cells)
+                                  if c.dim == tdim], axis=0)
+            aux = aux.astype(nm.float64)
             if key.endswith(':ref'):
                 key = 'mat_id'
             out[key] = Struct(name=key, mode='cell', data=aux)
-- 
2.43.0


From 3bb36f10aee47f0c31641f426cb36828dd99551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 094/137] fix: save order-zero fields on subregions: pass
 region name to extend_cell_data()

---
 sfepy/discrete/fem/fields_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 10e5dc4..5811aad 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -836,7 +836,7 @@ class FEField(Field):
             new_dofs[indx] = dofs[:indx.size]
 
         else:
-            new_dofs = extend_cell_data(dofs, self.domain, self.region,
+            new_dofs = extend_cell_data(dofs, self.domain, self.region.name,
                                         val=fill_value)
 
         return new_dofs
-- 
2.43.0


From 1932afc3bbfba5e6d3108b2d5af42c9139aa9d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 095/137] fix: H1DiscontinuousField.extend_dofs(): respect
 fill_value

---
 sfepy/discrete/fem/fields_nodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index b4af5c8..d24236d 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -518,7 +518,7 @@ class H1DiscontinuousField(H1NodalMixin, FEField):
         if self.approx_order != 0:
             dofs = self.average_to_vertices(dofs)
 
-        new_dofs = FEField.extend_dofs(self, dofs)
+        new_dofs = FEField.extend_dofs(self, dofs, fill_value=fill_value)
 
         return new_dofs
 
-- 
2.43.0


From 2309eb618a5af2ea56e6f478dd788eddae5e0ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 096/137] fix: save_sparse_txt(): CSC matrices

---
 sfepy/linalg/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/linalg/sparse.py b/sfepy/linalg/sparse.py
index 5da7fa6..a23c267 100644
--- a/sfepy/linalg/sparse.py
+++ b/sfepy/linalg/sparse.py
@@ -19,8 +19,8 @@ def save_sparse_txt(filename, mtx, fmt='%d %d %f\n'):
 
     elif mtx.format == 'csc':
         indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
-        for ic in range(mtx.shape[0]):
-            for ii in range(indptr[ir], indptr[ir+1]):
+        for ic in range(mtx.shape[1]):
+            for ii in range(indptr[ic], indptr[ic+1]):
                 fd.write(fmt % (indices[ii], ic, data[ii]))
 
     else:
-- 
2.43.0


From c266cf92d45f407bc69efa390476486154522461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 097/137] fix: compose_sparse(): reject undetermined block
 sizes

---
 sfepy/linalg/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/linalg/sparse.py b/sfepy/linalg/sparse.py
index a23c267..52c3ce2 100644
--- a/sfepy/linalg/sparse.py
+++ b/sfepy/linalg/sparse.py
@@ -161,10 +161,10 @@ def compose_sparse(blocks, row_sizes=None, col_sizes=None):
                       % (ic, ic)
                 raise ValueError(msg)
 
-    if nm.any(rs == -1):
+    if any(size == -1 for size in rs):
         raise ValueError('incomplete row block sizes! (%s)' % row_sizes)
 
-    if nm.any(cs == -1):
+    if any(size == -1 for size in cs):
         raise ValueError('incomplete column block sizes! (%s)' % col_sizes)
 
     if is_slice_r:
-- 
2.43.0


From 5431fe7694b5b87e26650f40c102e93c7b0e6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 098/137] fix: get_perpendiculars(): do not modify the argument

---
 sfepy/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/linalg/geometry.py b/sfepy/linalg/geometry.py
index 55c4e63..27cf9c6 100644
--- a/sfepy/linalg/geometry.py
+++ b/sfepy/linalg/geometry.py
@@ -257,7 +257,7 @@ def get_perpendiculars(vec):
     mutually perpendicular unit vectors perpendicular to it in 3D.
     """
     nvec = nm.linalg.norm(vec)
-    vec /= nvec
+    vec = vec / nvec
 
     if vec.shape[0] == 2:
         out = nm.array([vec[1], -vec[0]], dtype=nm.float64)
-- 
2.43.0


From 6510b22fa59d6e2438aa9bf541541bc3ef9e7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 099/137] fix: get_coors_in_tube(), get_coors_in_ball(): points
 outside two radii

---
 sfepy/linalg/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/linalg/geometry.py b/sfepy/linalg/geometry.py
index 27cf9c6..7fb8397 100644
--- a/sfepy/linalg/geometry.py
+++ b/sfepy/linalg/geometry.py
@@ -431,7 +431,7 @@ def get_coors_in_tube(coors, centre, axis, radius_in, radius_out, length,
 
     else:
         out = nm.where((dl >= -l2) & (dl <= l2) &
-                       (dr <= radius_in) & (dr >= radius_out))[0]
+                       ((dr <= radius_in) | (dr >= radius_out)))[0]
 
     return out
 
@@ -468,6 +468,6 @@ def get_coors_in_ball(coors, centre, radius, radius2=None, inside=True):
             out = nm.where((nvec <= radius) & (nvec >= radius2))[0]
 
         else:
-            out = nm.where((nvec >= radius) & (nvec <= radius2))[0]
+            out = nm.where((nvec >= radius) | (nvec <= radius2))[0]
 
     return out
-- 
2.43.0


From 4afd24ca27d7cf0eee754b3eecae62cef8f67201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 100/137] fix: TransformToPlane.tensor_plane_stress(): sign in
 the dielectric tensor

---
 sfepy/mechanics/matcoefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mechanics/matcoefs.py b/sfepy/mechanics/matcoefs.py
index 115b40d..f16095e 100644
--- a/sfepy/mechanics/matcoefs.py
+++ b/sfepy/mechanics/matcoefs.py
@@ -447,7 +447,7 @@ class TransformToPlane(Struct):
             c2 = c3[tuple(mg(self.i_ms, self.i_ms))] \
                  - nm.dot(Feps.T, nm.dot(Ainv, Feps))
             d2 = d3[tuple(mg(self.i_m, self.i_m))] \
-                 - nm.dot(FE.T, nm.dot(Ainv, FE))
+                 + nm.dot(FE.T, nm.dot(Ainv, FE))
             b2 = b3[tuple(mg(self.i_m, self.i_ms))].T \
                  - nm.dot(FE.T, nm.dot(Ainv, Feps))
 
-- 
2.43.0


From c0d68b0559e3494684bbeb002a694ad1d552de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 101/137] fix: ContactSphere.get_distance(): points in the
 sphere centre

---
 sfepy/mechanics/contact_bodies.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfepy/mechanics/contact_bodies.py b/sfepy/mechanics/contact_bodies.py
index ff62a73..f58fd24 100644
--- a/sfepy/mechanics/contact_bodies.py
+++ b/sfepy/mechanics/contact_bodies.py
@@ -83,8 +83,7 @@ class ContactSphere(Struct):
         dist = la.norm_l2_along_axis(vecs)
         # Prevent zero division.
         ii = dist > 1e-8
-        normals = nm.where(ii[:, None], vecs[ii] / dist[ii][:, None],
-                           vecs[ii])
+        normals = vecs / nm.where(ii, dist, 1.0)[:, None]
         return self.radius - dist, normals
 
     def _get_derivatives(self, points):
-- 
2.43.0


From f49ca1abc4c080633bcd1f4ab36fbd5cfc110156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:45 +0000
Subject: [PATCH 102/137] fix: read_log(): axis labels and names with commas or
 colons

---
 sfepy/base/log.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 212972e..3799cb6 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -1,5 +1,6 @@
 import time
 import os
+import re
 import atexit
 
 try:
@@ -59,6 +60,18 @@ def iter_names(data_names, igs=None):
                 iseq += 1
             ii += 1
 
+def _parse_labels(line):
+    """
+    Parse the labels line of a log header - the labels can contain commas and
+    colons.
+    """
+    match = re.match(r'#\s*xlabel: (.*), ylabel: (.*), yscales: (.*)$',
+                     line.strip())
+    if match is None:
+        raise ValueError('wrong log header line! (%s)' % line)
+
+    return [ii.strip().strip('"') for ii in match.groups()]
+
 def read_log(filename):
     """
     Read data saved by :class:`Log` into a text file.
@@ -92,10 +105,10 @@ def read_log(filename):
                 for ig in range(n_gr):
                     next(fd)
                     line_info = next(fd)
-                    xlabel, ylabel, yscales = line_info.split(',')
+                    xlabel, ylabel, yscales = _parse_labels(line_info)
 
                     line_names = next(fd)
-                    names = line_names.split(':')[1]
+                    names = line_names.split(':', 1)[1]
                     names = [name.strip().strip('"')
                              for name in names.split(',')]
                     if len(names[0]) == 0:
@@ -105,11 +118,7 @@ def read_log(filename):
                     aux = line_plot_kwargs[19:].strip().strip('"')
                     plot_kwargs = eval(aux + ',') if len(aux) else ({},)
 
-                    info[ig] = (xlabel.split(':')[1].strip().strip('"'),
-                                ylabel.split(':')[1].strip().strip('"'),
-                                yscales.split(':')[1].strip().strip('"'),
-                                names,
-                                plot_kwargs)
+                    info[ig] = (xlabel, ylabel, yscales, names, plot_kwargs)
 
                     name2key.update({name : ik + offset
                                      for ik, name in enumerate(info[ig][3])})
-- 
2.43.0


From c221c4e8df615748bbfe0593c5dee0ca8cff2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:45 +0000
Subject: [PATCH 103/137] fix: update_dict_recursively(): update tuples by
 source items, pass overwrite_by_none

---
 sfepy/base/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/base/base.py b/sfepy/base/base.py
index a761db6..602ab18 100644
--- a/sfepy/base/base.py
+++ b/sfepy/base/base.py
@@ -1177,19 +1177,21 @@ def update_dict_recursively(dst, src, tuples_too=False,
     """
     def tuplezip(a):
         if isinstance(a[0], dict) and isinstance(a[1], dict):
-            return update_dict_recursively(a[0], a[1], True)
+            return update_dict_recursively(a[0], a[1], True,
+                                           overwrite_by_none)
         return a[1]
 
     for key in src:
         if key in dst:
             if isinstance(src[key], dict) and isinstance(dst[key], dict):
                 dst[key] = update_dict_recursively(dst[key],
-                                                   src[key], tuples_too)
+                                                   src[key], tuples_too,
+                                                   overwrite_by_none)
                 continue
 
             if tuples_too and isinstance(dst[key], tuple) \
                    and isinstance(src[key], tuple):
-                out = map(tuplezip, zip(src[key], dst[key]))
+                out = map(tuplezip, zip(dst[key], src[key]))
                 out = tuple(out)
                 dst[key] = out[:len(dst[key])]
                 continue
-- 
2.43.0


From 94a5ab81c010d77bfea4297cb2e503397b27f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:45 +0000
Subject: [PATCH 104/137] fix: parse_conf: imaginary numbers

---
 sfepy/base/parse_conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/base/parse_conf.py b/sfepy/base/parse_conf.py
index d18e1fe..c503dbe 100644
--- a/sfepy/base/parse_conf.py
+++ b/sfepy/base/parse_conf.py
@@ -45,7 +45,7 @@ cvt_real = lambda toks: float(toks[0])
 real.setParseAction(cvt_real)
 
 cmplx = real + CaselessLiteral('j')
-cvt_cmplx = lambda toks: complex(toks[0])
+cvt_cmplx = lambda toks: complex(0.0, toks[0])
 cmplx.setParseAction(cvt_cmplx)
 
 array_index = integer + Optional(colon + integer +
-- 
2.43.0


From dd75bf13ce377795e2076b78ce64699cf6a087c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:50 +0000
Subject: [PATCH 105/137] fix: surface TL terms: fields on subdomains

---
 sfepy/terms/terms_hyperelastic_tl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 3a8e566..18ad45b 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -828,8 +828,12 @@ class HyperElasticSurfaceTLFamilyData(HyperElasticFamilyData):
                                         region.name)
         data = self.init_data_struct(st_shape, name='surface_family_data')
 
+        # The field connectivity rows correspond to the field region cells.
+        fis = sd.fis.copy()
+        fis[:, 0] = state.field.region.get_cell_indices(fis[:, 0])
+
         fargs = tuple([getattr(data, k) for k in self.data_names])
-        fargs = fargs + (vec, sg, sd.fis, state.field.econn)
+        fargs = fargs + (vec, sg, fis, state.field.econn)
         fargs = Term.translate_fargs_mapping(self.family_function,
                                              list(fargs))
 
-- 
2.43.0


From 69702be7cc488ffe1ab723213a23b3c8a802fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 106/137] fix: new_ulf_iteration(): start from nonzero states,
 move the mesh of all fields

---
 sfepy/discrete/common/fields.py     | 10 +++++++---
 sfepy/discrete/dg/fields.py         |  4 ++--
 sfepy/discrete/evaluate.py          | 11 ++++++++---
 sfepy/discrete/fem/fields_base.py   | 25 +++++++++++++++++++++++--
 sfepy/discrete/fem/fields_l2.py     |  4 ++--
 sfepy/discrete/structural/fields.py |  2 +-
 6 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index d691e7e..a418423 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -194,15 +194,19 @@ class Field(Struct):
             else:
                 self.mappings0 = {}
 
-    def save_mappings(self):
+    def save_mappings(self, mappings=None):
         """
-        Save current reference mappings to `mappings0` attribute.
+        Save current reference mappings to `mappings0` attribute. If
+        `mappings` are given, they are added to the already saved mappings.
         """
         from multiprocessing import managers
 
         if isinstance(self.mappings0, managers.DictProxy):
-            for k, v in self.mappings.items():
+            mappings = self.mappings if mappings is None else mappings
+            for k, v in mappings.items():
                 self.mappings0[k] = (v[0], None)  # save PyCMapping only
+        elif mappings is not None:
+            self.mappings0.update(mappings)
         else:
             self.mappings0 = self.mappings.copy()
 
diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index 26701c9..d9d4443 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -1061,7 +1061,7 @@ class DGField(FEField):
         return bc2bfi
 
     def create_mapping(self, region, integral, integration,
-                       return_mapping=True):
+                       return_mapping=True, actual=True):
         """Creates and returns mapping
 
         Parameters
@@ -1081,7 +1081,7 @@ class DGField(FEField):
         mapping : FEMapping
         """
         domain = self.domain
-        coors = domain.get_mesh_coors(actual=True)
+        coors = domain.get_mesh_coors(actual=actual)
         dconn = domain.get_conn()
         # from FEField
         if region.kind == 'cell':
diff --git a/sfepy/discrete/evaluate.py b/sfepy/discrete/evaluate.py
index 229fe75..c101bf3 100644
--- a/sfepy/discrete/evaluate.py
+++ b/sfepy/discrete/evaluate.py
@@ -67,10 +67,15 @@ class Evaluator(Struct):
         coors = problem.domain.get_mesh_coors().copy()
         coors[nods, :] += state().reshape(len(nods), state.n_components)
 
-        if len(state.field.mappings0) == 0:
-            state.field.save_mappings()
+        # All the fields share the moving mesh.
+        for field in {var.field.name : var.field
+                      for var in problem.equations.variables
+                      if hasattr(var, 'field')}.values():
+            if len(field.mappings0) == 0:
+                field.save_mappings()
+
+            field.clear_mappings()
 
-        state.field.clear_mappings()
         problem.set_mesh_coors(coors, update_fields=False, actual=True,
                                clear_all=False)
 
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 5811aad..cfa3c2c 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1244,8 +1244,29 @@ class FEField(Field):
             conn = region.domain.get_conn(tdim=1)[region.cells]
             self.extra_data[name] = conn
 
+    def get_mapping(self, region, integral, integration,
+                    get_saved=False, return_key=False):
+        """
+        See :func:`sfepy.discrete.common.fields.Field.get_mapping()`.
+
+        A missing saved mapping is always created in the undeformed
+        configuration.
+        """
+        key = (region.name, integral.get_key(), integration)
+        if get_saved and (key not in self.mappings0):
+            coors_act = getattr(self.domain.mesh, 'coors_act', None)
+            if ((coors_act is not None)
+                and not nm.array_equal(coors_act,
+                                       self.domain.get_mesh_coors())):
+                out = self.create_mapping(region, integral, integration,
+                                          actual=False)
+                self.save_mappings({key : out})
+
+        return Field.get_mapping(self, region, integral, integration,
+                                 get_saved=get_saved, return_key=return_key)
+
     def create_mapping(self, region, integral, integration,
-                       return_mapping=True):
+                       return_mapping=True, actual=True):
         """
         Create a new reference mapping.
 
@@ -1260,7 +1281,7 @@ class FEField(Field):
         - surface mappings require field order to be > 0
         """
         domain = self.domain
-        coors = domain.get_mesh_coors(actual=True)
+        coors = domain.get_mesh_coors(actual=actual)
 
         iels = region.get_cells(true_cells_only=(region.kind == 'cell'))
 
diff --git a/sfepy/discrete/fem/fields_l2.py b/sfepy/discrete/fem/fields_l2.py
index 9f9f4dd..2906044 100644
--- a/sfepy/discrete/fem/fields_l2.py
+++ b/sfepy/discrete/fem/fields_l2.py
@@ -186,9 +186,9 @@ class L2ConstantVolumeField(Field):
             return bf, qp_weights
 
     def create_mapping(self, region, integral, integration,
-                       return_mapping=True):
+                       return_mapping=True, actual=True):
         domain = self.domain
-        coors = domain.get_mesh_coors(actual=True)
+        coors = domain.get_mesh_coors(actual=actual)
         iels = region.get_cells(true_cells_only=(region.kind == 'cell'))
 
         if integration == 'cell':
diff --git a/sfepy/discrete/structural/fields.py b/sfepy/discrete/structural/fields.py
index 07fd715..f8f3b52 100644
--- a/sfepy/discrete/structural/fields.py
+++ b/sfepy/discrete/structural/fields.py
@@ -20,7 +20,7 @@ class Shell10XField(H1NodalMixin, FEField):
         self.poly_space = ps
 
     def create_mapping(self, region, integral, integration,
-                       return_mapping=True):
+                       return_mapping=True, actual=True):
         """
         Create a new reference mapping.
         """
-- 
2.43.0


From 837426a940de454084c5763cfa9d2214b96096d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 107/137] fix: Mooney-Rivlin UL term: stress in 3D, scale of
 tangent modulus

---
 sfepy/discrete/common/extmods/geommech.c | 13 +++++++------
 sfepy/terms/extmods/terms_hyperelastic.c | 12 ++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/sfepy/discrete/common/extmods/geommech.c b/sfepy/discrete/common/extmods/geommech.c
index 8f8c2b1..2fac69b 100644
--- a/sfepy/discrete/common/extmods/geommech.c
+++ b/sfepy/discrete/common/extmods/geommech.c
@@ -595,12 +595,13 @@ int32 geme_mulT2S_AA( FMField *R, FMField *A )
       pr[2] = pa[2]*pa[0] + pa[1]*pa[2];
       break;
     case 6:
-      pr[0] = pa[0]*pa[0] + pa[5]*pa[5] + pa[4]*pa[4];
-      pr[1] = pa[5]*pa[5] + pa[1]*pa[1] + pa[3]*pa[3];
-      pr[2] = pa[4]*pa[4] + pa[3]*pa[3] + pa[2]*pa[2];
-      pr[3] = pa[4]*pa[5] + pa[1]*pa[3] + pa[2]*pa[3];
-      pr[4] = pa[0]*pa[4] + pa[5]*pa[3] + pa[4]*pa[2];
-      pr[5] = pa[0]*pa[5] + pa[5]*pa[1] + pa[4]*pa[3];
+      /* 11, 22, 33, 12, 13, 23 */
+      pr[0] = pa[0]*pa[0] + pa[3]*pa[3] + pa[4]*pa[4];
+      pr[1] = pa[3]*pa[3] + pa[1]*pa[1] + pa[5]*pa[5];
+      pr[2] = pa[4]*pa[4] + pa[5]*pa[5] + pa[2]*pa[2];
+      pr[3] = pa[0]*pa[3] + pa[3]*pa[1] + pa[4]*pa[5];
+      pr[4] = pa[0]*pa[4] + pa[3]*pa[5] + pa[4]*pa[2];
+      pr[5] = pa[3]*pa[4] + pa[1]*pa[5] + pa[5]*pa[2];
       break;
     default:
       errput( ErrHead "ERR_Switch\n" );
diff --git a/sfepy/terms/extmods/terms_hyperelastic.c b/sfepy/terms/extmods/terms_hyperelastic.c
index e69edc0..fd2183e 100644
--- a/sfepy/terms/extmods/terms_hyperelastic.c
+++ b/sfepy/terms/extmods/terms_hyperelastic.c
@@ -1307,12 +1307,12 @@ int32 dq_ul_he_tan_mod_mooney_rivlin( FMField *out, FMField *mat,
     for (iqp = 0; iqp < nQP; iqp++) {
       detF23 = exp( -2.0/3.0 * log( pdetF[iqp] ) );
       detF43 = detF23 * detF23;
-      F1 = 16.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F2 = -8.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
-      F3 = 4.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F4 = 4.0 * pkappa[iqp] * detF43;
-      F5 = -2.0 * pkappa[iqp] * detF43;
-      F6 = 8.0/3.0 * pkappa[iqp] * detF43;
+      F1 = 8.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F2 = -4.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
+      F3 = 2.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F4 = 2.0 * pkappa[iqp] * detF43;
+      F5 = -pkappa[iqp] * detF43;
+      F6 = 4.0/3.0 * pkappa[iqp] * detF43;
       for (ir = 0; ir < sym; ir++) {
         for (ic = 0; ic < sym; ic++) {
           pd[sym*ir+ic]
-- 
2.43.0


From 9c30f097bba18515ee8d1499d4baecdd74864215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:11 +0000
Subject: [PATCH 108/137] fix: H1HierarchicVolumeField.set_dofs(): order of
 components of vector DOFs

---
 sfepy/discrete/fem/fields_hierarchic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_hierarchic.py b/sfepy/discrete/fem/fields_hierarchic.py
index 1998d64..56f10f5 100644
--- a/sfepy/discrete/fem/fields_hierarchic.py
+++ b/sfepy/discrete/fem/fields_hierarchic.py
@@ -220,7 +220,7 @@ class H1HierarchicVolumeField(H1Mixin, FEField):
             raise ValueError('unknown function/value type! (%s)' % type(fun))
 
         nods, indx = nm.unique(nods, return_index=True)
-        ii = (nm.tile(dpn * indx, dpn)
+        ii = (nm.repeat(dpn * indx, dpn)
               + nm.tile(nm.arange(dpn, dtype=nm.int32), indx.shape[0]))
         vals = vals[ii]
 
-- 
2.43.0


From c70ae72ed344c8c7c9e18dbf4c6112f4732b71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 109/137] fix: ScipyFMinSolver: inspect.getargspec() does not
 exist

---
 sfepy/solvers/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index e299c72..d1e8a45 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -370,7 +370,7 @@ class ScipyFMinSolver(OptimizationSolver):
         if conf.method in self._has_grad:
             kwargs['fprime'] = obj_fun_grad
 
-        if 'disp' in inspect.getargspec(self.solver)[0]:
+        if 'disp' in inspect.signature(self.solver).parameters:
             kwargs['disp'] = conf.verbose
 
         kwargs.update(self.build_solver_kwargs(conf))
-- 
2.43.0


From 7c29d98ef41707f3f8ce32734302236459ac8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 110/137] fix: FMinSteepestDescent: report the stopping status

---
 sfepy/solvers/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index d1e8a45..692f225 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -292,7 +292,7 @@ class FMinSteepestDescent(OptimizationSolver):
 
         if status is not None:
             status['log'] = self.log
-            status['status'] = status
+            status['status'] = ret
             status['of0'] = of0
             status['of'] = of
             status['it'] = it
-- 
2.43.0


From c4dbac9b9cad09472f37dd1f7fa41dc20103fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 111/137] fix: ScipyRoot: methods without status, report
 without status object

---
 sfepy/solvers/nls.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..dc35dca 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -766,18 +766,21 @@ class ScipyRoot(NonlinearSolver):
         err = nla.norm(sol.fun)
 
         nit = sol.get('nit', -1)
+        # Some methods (df-sane) return only the success flag.
+        condition = sol.get('status', 1 if sol.success else 2)
+        time_stats = {'solver' : timer.stop()}
         if status is not None:
-            status['time_stats'] = {'solver' : timer.stop()}
+            status['time_stats'] = time_stats
             status['err'] = err
             status['n_iter'] = nit
             status['n_fev'] = sol.nfev
-            status['condition'] = sol.status
+            status['condition'] = condition
 
         if conf.report_status:
             output(sol.message)
-            output(f'status: {sol.status}, iter: {nit},'
+            output(f'status: {condition}, iter: {nit},'
                    f' nfev: {sol.nfev}, err: {err:.8e}')
-            output('solver: %.8f [s]' % status['time_stats']['solver'])
+            output('solver: %.8f [s]' % time_stats['solver'])
 
         return sol.x
 
-- 
2.43.0


From 59db449013a6abb2e8c28ce81216dfcfefc6b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 112/137] fix: Newton: giving up on warp violation

---
 sfepy/solvers/nls.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index dc35dca..5d416c9 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -198,6 +198,8 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                # Return the last valid state.
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -366,6 +368,8 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                # Return the last valid state.
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -642,14 +646,14 @@ class Newton(NonlinearSolver):
             if (self.log is not None) and ('iteration' in conf.log_vlines):
                 self.log.plot_vlines([1], color='g', linewidth=0.5)
 
-            condition = conv_test(conf, it, err, err0)
-            if condition >= 0:
-                break
-
             if (not ok) and conf.give_up_warp:
                 condition = 2
                 break
 
+            condition = conv_test(conf, it, err, err0)
+            if condition >= 0:
+                break
+
             timers.matrix.start()
             if not conf.is_linear:
                 if (is_new_jacobian(it, it_jac, vec_r, vec_r_last, vec_x,
-- 
2.43.0


From 0e1aef9a6e8e611b13c977832a9eaff896eca7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 113/137] fix: Newton: scaled errors with the error mode of
 line search

---
 sfepy/solvers/nls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index 5d416c9..08ad67e 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -540,6 +540,7 @@ class Newton(NonlinearSolver):
         else:
             _, svec_r, svec_x = scale_system(None, vec_r, vec_x,
                                              self.context)
+            smtx_a = lin_solver.mtx
             svec_dx = lin_solver(svec_r, x0=svec_x,
                                  eps_a=eps_a, eps_r=eps_r,
                                  status=ls_status)
-- 
2.43.0


From 500de4c6815f9a6d7b12098f4a1775259a27e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:36 +0000
Subject: [PATCH 114/137] fix: SemismoothNewton: Jacobian of the non-smooth
 equation

---
 sfepy/solvers/semismooth_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..93ed6d5 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -308,7 +308,7 @@ class SemismoothNewton(Newton):
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
         else:
-            iz = nm.where(vec_a_r > vec_b_r)[0]
+            iz = nm.where(vec_a_r < vec_b_r)[0]
             mul_a = nm.zeros_like(vec_a_r)
             mul_b = nm.ones_like(mul_a)
 
-- 
2.43.0


From 2ce53583d0b2ea717b456d6fdab11907f015a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:35 +0000
Subject: [PATCH 115/137] fix: get_lattice_volume() in 2D with axes given by
 three components

---
 sfepy/homogenization/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/utils.py b/sfepy/homogenization/utils.py
index 0c9069a..00a141a 100644
--- a/sfepy/homogenization/utils.py
+++ b/sfepy/homogenization/utils.py
@@ -246,7 +246,7 @@ def get_lattice_volume(axes):
     dim = axes.shape[0]
 
     if dim == 2:
-        volume = nm.abs(nm.cross(axes[0], axes[1]))
+        volume = nm.abs(nm.linalg.det(axes[:, :2]))
 
     elif dim == 3:
         volume = nm.dot(nm.cross(axes[0], axes[1]), axes[2])
-- 
2.43.0


From 923a98191656625f3a64fb842aa2e9316da44eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:35 +0000
Subject: [PATCH 116/137] fix: given volumes of homogenization lose no digits

---
 sfepy/homogenization/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 87ba697..c256b45 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -632,7 +632,7 @@ class HomogenizationEngine(PDESolverApp):
             cfkey = 'Volume_%s' % vk
             vcfkeys.append('c.' + cfkey)
             if 'value' in vv:
-                cf_vols[cfkey] = {'expression': '%e' % float(vv['value']),
+                cf_vols[cfkey] = {'expression': '%.17e' % float(vv['value']),
                                   'class': CoefEval}
             else:
                 cf_vols[cfkey] = {'expression': vv['expression'],
-- 
2.43.0


From 032a36fdde37f93e3d2d4b9abe4efc4b84bbd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:11 +0000
Subject: [PATCH 117/137] fix: homogenization: compute_only with microproblems
 computed in chunks

---
 sfepy/homogenization/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index c256b45..5f93345 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -436,11 +436,15 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
         """
         dependencies = multiproc.get_dict('dependencies', clear=True)
 
+        compute_only = options.compute_only
         if micro_states is not None and chunk_size is not None:
             micro_chunk_tab, req_info_ch, coef_info_ch = \
                 self.chunk_micro_tasks(len(micro_states['coors']),
                                        req_info, coef_info,
                                        chunk_size, store_micro_idxs)
+            if compute_only is not None:
+                compute_only = [key for key in coef_info_ch
+                                if rm_chtag(key) in compute_only]
         else:
             micro_chunk_tab = None
             req_info_ch, coef_info_ch = req_info, coef_info
@@ -456,7 +460,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                        dependencies, micro_states, time_tag, micro_chunk_tab)
 
         sorted_names = self.get_sorted_dependencies(req_info_ch, coef_info_ch,
-                                                    options.compute_only)
+                                                    compute_only)
 
         # calculate number of dependencies and inverse map
         numdeps = {}
-- 
2.43.0


From 3aeba39ca87b719a0d39efe512668f5a1936a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:35 +0000
Subject: [PATCH 118/137] fix: BSpline: cyclic knot vectors of ranges other
 than [0, 1]

---
 sfepy/mesh/bspline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 561d5f8..7cef4eb 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -202,10 +202,10 @@ class BSpline(Struct):
         n_inter = n_knots - 2 * dg
         aux = nm.linspace(knot_range[0], knot_range[1], n_inter)
         if knot_type == '' or knot_type == 'cyclic':
-            dd = aux[1]
-            self.knots = nm.hstack((nm.arange(-dg, 0) * dd,
+            dd = aux[1] - aux[0]
+            self.knots = nm.hstack((aux[0] + nm.arange(-dg, 0) * dd,
                                     aux,
-                                    nm.arange(1, dg + 1) * dd + 1))
+                                    aux[-1] + nm.arange(1, dg + 1) * dd))
 
         elif knot_type == 'clamped':
             self.knots = nm.array([aux[0]]* dg + list(aux) + [aux[-1]]* dg,
-- 
2.43.0


From e12b5531e3e6634892b5556f00c91bbd052fa861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:12 +0000
Subject: [PATCH 119/137] fix: BSpline: evaluation at the end of parameter
 ranges other than [0, 1]

---
 sfepy/mesh/bspline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 7cef4eb..9a62a4f 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -90,12 +90,12 @@ class BSpline(Struct):
         t : array
             The parameter vector of the B-spline.
         """
-        self.t = to_ndarray(t)
+        self.t = nm.array(to_ndarray(t), dtype=nm.float64)
 
         if self.knots is not None:
             endval = self.knots[-(self.degree + 1)]
             idxs = nm.where(self.t == endval)[0]
-            self.t[idxs] -= nm_f64_eps
+            self.t[idxs] = nm.nextafter(endval, -nm.inf)
 
     def set_param_n(self, n=100, knot_range=(0.0, 1.0)):
         """
@@ -107,7 +107,7 @@ class BSpline(Struct):
             The number of steps in the B-spline parametric vector.
         """
         self.t = nm.linspace(knot_range[0], knot_range[1], n)
-        self.t[-1] -= nm_f64_eps
+        self.t[-1] = nm.nextafter(knot_range[1], -nm.inf)
 
     @staticmethod
     def basis_function_dg0(t, knots, n):
-- 
2.43.0


From eaffb52ec6c33a38fd09ee537a070fac58631e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:12 +0000
Subject: [PATCH 120/137] fix: IGDomain: vertex sets stored in the Bezier mesh
 numbering

---
 sfepy/discrete/iga/domain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/iga/domain.py b/sfepy/discrete/iga/domain.py
index 25a89b9..c5fccc2 100644
--- a/sfepy/discrete/iga/domain.py
+++ b/sfepy/discrete/iga/domain.py
@@ -166,8 +166,12 @@ class IGDomain(Domain):
         bweights = self.bmesh.weights
         bconn = self.bmesh.conn
 
+        # The regions are stored in the Bezier mesh numbering.
+        itc = nm.unique(iga.get_bezier_topology(bconn, degrees))
+        regions = {key: itc[val] for key, val in self.vertex_set_bcs.items()}
+
         return (knots, degrees, cps, weights, cs, conn,
-                bcps, bweights, bconn, self.vertex_set_bcs)
+                bcps, bweights, bconn, regions)
 
     @staticmethod
     def from_data(knots, degrees, cps, weights, cs, conn,
-- 
2.43.0


From c8dfa2a9c0bdb4601862f678c6d94a327a3da495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:47 +0000
Subject: [PATCH 121/137] fix: BSpline.insert_knot() with current numpy

---
 sfepy/mesh/bspline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 9a62a4f..307dd36 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -255,6 +255,7 @@ class BSpline(Struct):
         idx = nm.where(nm.logical_and(kn[:-1] <= new, new < kn[1:]))[0]
 
         if len(idx) > 0:
+            idx = idx[0]
             multi = len(nm.where(kn == new)[0])
             if multi < dg:
                 # new knot
-- 
2.43.0


From fa187e66db1e50b8685de62bfab29113fa16ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:05 +0000
Subject: [PATCH 122/137] fix: BSpline.approximate(): the last point lies
 inside of the parameter range

---
 sfepy/mesh/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 307dd36..a71b2da 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -442,7 +442,7 @@ class BSpline(Struct):
         dista = nm.power(dist, alpha)
         self.t = nm.zeros((coors.shape[0],), dtype=nm.float64)
         self.t[1:] += dista.cumsum() / dista.sum()
-        self.t[-1] -= nm_f64_eps
+        self.t[-1] = nm.nextafter(1.0, 0.0)
 
         while True:
             self.basis = self.basis_function_dg(dg, self.t,
-- 
2.43.0


From 86ed264d13abfadd702b4c4c64b1fedcb17f7ba7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:29:03 +0000
Subject: [PATCH 123/137] fix: Problem.block_solve(): equations with parameter
 variables were not solved

---
 sfepy/discrete/problem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 64c1bdd..448276b 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1624,9 +1624,12 @@ class Problem(Struct):
             raise ValueError(msg)
 
         def replace_virtuals(deps, pairs):
+            # Parameter variables are always known - no dependencies.
+            unknowns = set(pairs.values())
+
             out = {}
             for key, val in deps.items():
-                out[pairs[key]] = val
+                out[pairs[key]] = unknowns.intersection(val)
 
             return out
 
-- 
2.43.0


From 86494ee0e362173543cac7a6a056d07910876538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:03 +0000
Subject: [PATCH 124/137] fix: Variables.init_state(): forget the reduced state
 with LCBCs of the previous solve

---
 sfepy/discrete/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 1b86538..2d9f98b 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -664,6 +664,8 @@ class Variables(Container):
             var.locked = True
 
         self.vec = vec
+        # The previous reduced state (LCBCs) is not valid anymore.
+        self.r_vec = None
 
     def fill_state(self, value):
         """
-- 
2.43.0


From 2f4cf957f412dd1825259da778e85d00a1884830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:11 +0000
Subject: [PATCH 125/137] fix: use the spring stiffness in the off-diagonal of
 the spring matrix

---
 sfepy/terms/terms_elastic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index f9a7b7d..ce6e0fa 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -892,7 +892,8 @@ class LinearSpringTerm(Term):
             eye.shape = (1, 1) + eye.shape
             out[...] = - stiffness * eye
             for k in nm.arange(dim) * 2:
-                out[..., k, k + 1] = out[..., k + 1, k] = 1
+                out[..., k, k + 1] = stiffness[..., 0, 0]
+                out[..., k + 1, k] = stiffness[..., 0, 0]
 
         return 0
 
-- 
2.43.0


From 94ab6ee7a0a9847fa99742701e2ab40e732aa717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:21 +0000
Subject: [PATCH 126/137] fix: transform the rotational and coupling stiffness
 of directional springs

---
 sfepy/terms/terms_elastic.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index ce6e0fa..ed38ead 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -1140,6 +1140,11 @@ class LinearDSpringTerm(LinearTrussTerm):
         nel, _, dim = mtx_t.shape
         ndof = mat.shape[2]
         ntr = 2 * dim
+        # The rotations are a vector only in 3D.
+        blocks = [slice(0, ntr)]
+        if ndof == ntr:
+            blocks.append(slice(ntr, 2 * ntr))
+
         ke = nm.zeros((nel, 2 * ndof, 2 * ndof), dtype=nm.float64)
         for k in range(ndof):
             for j in range(ndof):
@@ -1149,14 +1154,23 @@ class LinearDSpringTerm(LinearTrussTerm):
         if diff_var is None:
             trans_vec = membranes.transform_asm_vectors
             vec_loc = vec.copy()[..., None]
-            trans_vec(vec_loc[:, None, :ntr ,:], mtx_t.transpose((0, 2, 1)))
+            for ib in blocks:
+                trans_vec(vec_loc[:, None, ib, :], mtx_t.transpose((0, 2, 1)))
+
             fe = dot_sequences(ke, vec_loc)
             out[...] = fe[:, None, ...]
-            trans_vec(out[:, :, :ntr ,:], mtx_t)
+            for ib in blocks:
+                trans_vec(out[:, :, ib, :], mtx_t)
 
         else:
             out[...] = ke[:, None, ...]
-            membranes.transform_asm_matrices(out[..., :ntr, :ntr], mtx_t)
+            for ib in blocks:
+                for iep in range(2):
+                    ii = slice(ib.start + iep, ib.stop, 2)
+                    out[:, 0, ii, :] = dot_sequences(mtx_t, out[:, 0, ii, :],
+                                                     'AB')
+                    out[:, 0, :, ii] = dot_sequences(out[:, 0, :, ii], mtx_t,
+                                                     'ABT')
 
         return 0
 
-- 
2.43.0


From 29f37f7d38c962cfa3a44bdb1c8bae73fafe2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:53 +0000
Subject: [PATCH 127/137] fix: take the contact sphere margin as a distance

---
 sfepy/mechanics/contact_bodies.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfepy/mechanics/contact_bodies.py b/sfepy/mechanics/contact_bodies.py
index f58fd24..b96bbb7 100644
--- a/sfepy/mechanics/contact_bodies.py
+++ b/sfepy/mechanics/contact_bodies.py
@@ -63,8 +63,7 @@ class ContactSphere(Struct):
 
     def mask_points(self, points, eps):
         dist2 = la.norm_l2_along_axis(points - self.centre, squared=True)
-        radius2 = self.radius**2
-        mask = dist2 <= ((1 + eps)**2) * radius2
+        mask = dist2 <= (self.radius + eps)**2
         return mask
 
     def get_distance(self, points):
-- 
2.43.0


From 349c23dd499ea45f433fc9dd80dacb14e80b3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:13 +0000
Subject: [PATCH 128/137] fix: CMesh: reject missing connectivities and entity
 ids out of range

---
 sfepy/discrete/common/extmods/cmesh.pyx | 26 +++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index ffb937f..61bc7a5 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -226,6 +226,8 @@ cdef class CMesh:
                 raise ValueError('dimension of entities must be >= 1! (%d)'
                                  % dent)
 
+            self._check_entities(dent, 0, entities, dent)
+
             cmesh = CMesh()
 
             cmesh.dim = self.dim
@@ -496,6 +498,24 @@ cdef class CMesh:
     def cprint(self, int32 header_only=1):
         mesh_print(self.mesh, stdout, header_only)
 
+    def _check_entities(self, d1, d2, entities, dim):
+        """
+        Check that the connectivity `d1` -> `d2` is available and that
+        `entities` of dimension `dim` exist. The C functions use both without
+        checking.
+        """
+        tdim = self.mesh.topology.max_dim
+        if not ((0 <= d1 <= tdim) and (0 <= d2 <= tdim)):
+            raise ValueError('wrong entity dimension! (%d, %d)' % (d1, d2))
+
+        if self.get_conn(d1, d2) is None:
+            raise ValueError('connectivity %d -> %d is not available!'
+                             % (d1, d2))
+
+        if np.max(entities) >= self.num[dim]:
+            raise ValueError('entity id %d of dimension %d is out of range!'
+                             % (np.max(entities), dim))
+
     def get_surface_facets(self):
         """
         Get facets (edges in 2D, faces in 3D) on the mesh surface.
@@ -530,6 +550,8 @@ cdef class CMesh:
             else:
                 return empty
 
+        self._check_entities(dent, dim, entities, dent)
+
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
@@ -575,6 +597,8 @@ cdef class CMesh:
         if not entities.shape[0] > 0:
             return np.empty(0, dtype=np.uint32)
 
+        self._check_entities(dim, dent, entities, dent)
+
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
@@ -606,6 +630,8 @@ cdef class CMesh:
         if not entities.shape[0] > 0:
             return np.empty(0, dtype=np.uint32)
 
+        self._check_entities(dim, dent, entities, dent)
+
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
-- 
2.43.0


From be440e2df11771054bc2aa7d031934dd2afafbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:13 +0000
Subject: [PATCH 129/137] fix: contact segments in 2D: do not use the third
 components

---
 sfepy/mechanics/extmods/contres.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sfepy/mechanics/extmods/contres.c b/sfepy/mechanics/extmods/contres.c
index 96d44f0..2a6453a 100644
--- a/sfepy/mechanics/extmods/contres.c
+++ b/sfepy/mechanics/extmods/contres.c
@@ -912,17 +912,15 @@ void evaluateContactConstraints(float64* GPs, int32* ISN, int32* IEN, int32* N,
 		  switch (nsn) {
 		  case 2:
 		    // Tangent vectors parallel with element edges 1 and 2:
-		    // Component: X     Y      Z
-		    // Node 1:  Xm[0] Xm[2]  Xm[4]
-		    // Node 2:  Xm[1] Xm[3]  Xm[5]
+		    // Component: X     Y
+		    // Node 1:  Xm[0] Xm[2]
+		    // Node 2:  Xm[1] Xm[3]
 
 		    r_len = pow(Xm[1] - Xm[0], 2.0) +
-		      pow(Xm[3] - Xm[2], 2.0) +
-		      pow(Xm[5] - Xm[4], 2.0);
+		      pow(Xm[3] - Xm[2], 2.0);
 
 		    r = ((Xp[0] - Xm[0])  * (Xm[1] - Xm[0]) +
-			 (Xp[1] - Xm[2])  * (Xm[3] - Xm[2]) +
-			 (Xp[2] - Xm[4])  * (Xm[5] - Xm[4])) / r_len;
+			 (Xp[1] - Xm[2])  * (Xm[3] - Xm[2])) / r_len;
 		    r = 2*r-1;
 		    break;
 		  case 6:
-- 
2.43.0


From 6c3461aaedb19342f8dfb012e606c3948dd787bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:10 +0000
Subject: [PATCH 130/137] fix: DG RK4: sign of the stage state in the stage
 increments

---
 sfepy/solvers/ts_dg_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 855d732..41ff3f3 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -307,7 +307,7 @@ class RK4StepSolver(DGMultiStageTSS):
             if self.verbose:
                 output(self.stage_format.format(stage, lerr))
 
-            vec_x = - vec_dx - stage_vec
+            vec_x = stage_vec - vec_dx
 
             vec_x = self.post_stage_hook(vec_x)
 
-- 
2.43.0


From 3b9ba1aacd9597fa16ae6493283f599d08d918cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:41 +0000
Subject: [PATCH 131/137] fix: DG time stepping: pass the hooks to the proper
 arguments, restore the step time

---
 sfepy/solvers/ts_dg_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 41ff3f3..775bb22 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -110,8 +110,9 @@ class DGMultiStageTSS(TimeSteppingSolver):
 
             vec = prestep_fun(ts, vec)
 
-            vect = self.solve_step(ts, nls, vec, prestep_fun, poststep_fun,
-                                   status)
+            vect = self.solve_step(ts, nls, vec, prestep_fun=prestep_fun,
+                                   poststep_fun=poststep_fun, status=status)
+            ts.restore_step_time()
 
             vect = poststep_fun(ts, vect)
 
-- 
2.43.0


From 5b4c7cf86219baba38e2733f77d94105c0cf293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:41 +0000
Subject: [PATCH 132/137] fix: DG multistage solvers: evaluate all terms in the
 stage state

---
 sfepy/solvers/ts_dg_solvers.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 775bb22..d9f346b 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -78,6 +78,21 @@ class DGMultiStageTSS(TimeSteppingSolver):
                    status=None):
         raise NotImplementedError("Called abstract solver, use subclass.")
 
+    def set_stage_state(self, vec):
+        """
+        Make the stage state `vec` also the previous time step state of the
+        variables: the terms that do not contribute to the matrix have their
+        state arguments in the previous time step (e.g. `p[-1]`), and have to
+        be evaluated in the stage state.
+        """
+        context = self.context
+        variables = context.equations.variables
+        variables.set_state(vec, context.active_only, apply_ebc=False)
+        for var in variables.iter_state():
+            if var.history:
+                var.data[1] = var.data[0].copy()
+                var.invalidate_evaluate_cache(step=-1)
+
     def output_step_info(self, ts):
         output(self.format % (ts.time, ts.step + 1, ts.n_step),
                verbose=self.verbose)
@@ -141,6 +156,7 @@ class EulerStepSolver(DGMultiStageTSS):
 
         vec_x = vec_x0.copy()
 
+        self.set_stage_state(vec_x)
         vec_r = fun(vec_x)
 
         mtx_a = fun_grad(vec_x)
@@ -204,6 +220,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         # ----1st stage----
         vec_x = vec_x0.copy()
 
+        self.set_stage_state(vec_x)
         vec_r = fun(vec_x)
         mtx_a = fun_grad(vec_x)
         vec_dx = lin_solver(vec_r, x0=vec_x,
@@ -220,6 +237,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         vec_x1 = self.post_stage_hook(vec_x1)
 
         # ----2nd stage----
+        self.set_stage_state(vec_x1)
         vec_r = fun(vec_x1)
         mtx_a = fun_grad(vec_x1)
         vec_dx = lin_solver(vec_r, x0=vec_x1,
@@ -238,6 +256,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         # ----3rd stage-----
         ts.set_substep_time(1. / 2. * ts.dt)
         vec_x2 = prestep_fun(ts, vec_x2)
+        self.set_stage_state(vec_x2)
         vec_r = fun(vec_x2)
         mtx_a = fun_grad(vec_x2)
         vec_dx = lin_solver(vec_r, x0=vec_x2,
@@ -297,6 +316,7 @@ class RK4StepSolver(DGMultiStageTSS):
 
         for stage, stage_update in enumerate(self.stage_updates):
             stage_vec = stage_update(vec_x0, vec_x, dt)
+            self.set_stage_state(stage_vec)
             vec_r = fun(stage_vec)
             mtx_a = fun_grad(stage_vec)
             vec_dx = lin_solver(vec_r,  # x0=stage_vec,
-- 
2.43.0


From 1d278b59a596e1135a4495d08ca7f93e0d95c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:41 +0000
Subject: [PATCH 133/137] fix: 2D moment limiter: limit also the neighbours of
 the first cell

---
 sfepy/discrete/dg/limiters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/dg/limiters.py b/sfepy/discrete/dg/limiters.py
index 5f6547f..ed4217a 100644
--- a/sfepy/discrete/dg/limiters.py
+++ b/sfepy/discrete/dg/limiters.py
@@ -163,7 +163,7 @@ class MomentLimiter2D(DGLimiter):
         ex = self.extended
 
         nbrhd_idx = self.field.get_facet_neighbor_idx()
-        inner_mask = nbrhd_idx[:, :,  0] > 0
+        inner_mask = nbrhd_idx[:, :,  0] >= 0
         idx = nm.where(inner_mask.prod(axis=1))[0]
         nbrhd_idx = nbrhd_idx[:, :, 0]
 
-- 
2.43.0


From 0fd652bac55f5ca29d81678c46a3b44427acf1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:25 +0000
Subject: [PATCH 134/137] fix: DG fields: physical gradients of facet basis
 functions

---
 sfepy/discrete/dg/fields.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index d9d4443..a32890d 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -805,8 +805,11 @@ class DGField(FEField):
         outer_facet_basis_vals = nm.zeros(basis_shape)
 
         if derivative:
-            inner_facet_basis_vals[:] = facet_bf[0, :, 0, :, :, :]\
-                                                            .swapaxes(-2, -3).T
+            ref_vals = facet_bf[0, :, 0, :, :, :].swapaxes(-2, -3).T
+            # Transform the reference element gradients to the physical ones.
+            inner_facet_basis_vals[:] = nm.einsum('ifqkl,dflq->idfkq',
+                                                  self.get_facet_inv_jac(region),
+                                                  ref_vals)
         else:
             inner_facet_basis_vals[:] = facet_bf[:, 0, :, 0, :].T
 
@@ -816,7 +819,8 @@ class DGField(FEField):
         # indexing before remaining shape
         if derivative:
             outer_facet_basis_vals[:] = \
-                inner_facet_basis_vals[0, :, per_facet_neighbours[:, :, 1]]\
+                inner_facet_basis_vals[per_facet_neighbours[:, :, 0], :,
+                                       per_facet_neighbours[:, :, 1]]\
                     .swapaxes(-3, -4)
         else:
             outer_facet_basis_vals[:] = \
@@ -826,6 +830,33 @@ class DGField(FEField):
         # fix to flip facet QPs for right integration order
         return inner_facet_basis_vals, outer_facet_basis_vals[..., ::-1], whs
 
+    def get_facet_inv_jac(self, region):
+        """Returns inverses of the reference element mapping Jacobian matrices
+        in quadrature points on facets.
+
+        Parameters
+        ----------
+        region : sfepy.discrete.common.region.Region
+
+        Returns
+        -------
+        ijac : ndarray
+            Shape is (n_cell, n_el_facets, n_qp, dim, dim).
+        """
+        qps, _ = self.get_facet_qp()
+        coors = self.domain.get_mesh_coors(actual=True)
+        ecoors = coors[self.domain.get_conn()[region.get_cells()]]
+
+        ijac = nm.empty((ecoors.shape[0], self.n_el_facets, qps.shape[0],
+                         self.dim, self.dim))
+        for ifa in range(self.n_el_facets):
+            bfg = self.geom_poly_space.eval_basis(
+                nm.ascontiguousarray(qps[:, 0, ifa, :]), diff=1)
+            jac = nm.einsum('qln,ink->iqlk', bfg, ecoors[..., :self.dim])
+            ijac[:, ifa] = nm.linalg.inv(jac)
+
+        return ijac
+
     def clear_normals_cache(self, region=None):
         """Clears normals cache for given region or all regions.
 
-- 
2.43.0


From f0c60d0c882cdd62539d2afaa8749d6f14b1a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:54 +0000
Subject: [PATCH 135/137] fix: DG periodic conditions: match the facets of the
 two sides

---
 sfepy/discrete/common/dof_info.py | 12 +++++++++++-
 sfepy/discrete/dg/fields.py       | 17 +++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 10e3b4f..90a9173 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -6,6 +6,7 @@ Helper functions for the equation mapping.
 """
 import numpy as nm
 import scipy.sparse as sp
+from scipy.spatial.distance import cdist
 
 from sfepy.base.base import assert_, Struct
 from sfepy.discrete.functions import Function
@@ -406,10 +407,19 @@ class EquationMap(Struct):
                 self.n_dg_ebc += 1
             elif ntype == "DGEPBC":
 
-                # ensure matching boundaries?
                 master_bc2bfi = field.get_bc_facet_idx(region)
                 slave_bc2bfi = field.get_bc_facet_idx(bc.regions[1])
 
+                # Match the facets using their relative positions in the sides.
+                mcoor = field.get_facet_coor(master_bc2bfi)
+                scoor = field.get_facet_coor(slave_bc2bfi)
+                if mcoor.shape != scoor.shape:
+                    raise ValueError('DG EPBC facet list lengths do not match!'
+                                     ' (%d, %d)' % (len(mcoor), len(scoor)))
+                dist = cdist(mcoor - mcoor.mean(axis=0),
+                             scoor - scoor.mean(axis=0))
+                slave_bc2bfi = slave_bc2bfi[dist.argmin(axis=1)]
+
                 self.dg_epbc.append((master_bc2bfi, slave_bc2bfi))
                 self.n_dg_epbc += 1
 
diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index a32890d..1a019c9 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -1091,6 +1091,23 @@ class DGField(FEField):
 
         return bc2bfi
 
+    def get_facet_coor(self, bc2bfi):
+        """Returns coordinates of the facet centroids.
+
+        Parameters
+        ----------
+        bc2bfi : ndarray
+            index of cells along with corresponding facets
+
+        Returns
+        -------
+        coors : ndarray
+        """
+        cmesh = self.domain.cmesh
+        conn = cmesh.get_conn(self.dim, self.dim - 1)
+        facets = conn.indices[conn.offsets[bc2bfi[:, 0]] + bc2bfi[:, 1]]
+        return cmesh.get_centroids(self.dim - 1)[facets]
+
     def create_mapping(self, region, integral, integration,
                        return_mapping=True, actual=True):
         """Creates and returns mapping
-- 
2.43.0


From 033dbaaad48d3b164be0146ac340f18097b936c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:12 +0000
Subject: [PATCH 136/137] fix: circle probe: use the size hint also for the
 closing interval

---
 sfepy/discrete/probes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 9bd71a0..f1499ac 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -377,7 +377,12 @@ class Probe(Struct):
 
             refine_flag = dist > pd
             if self.is_cyclic:
-                pd1 = 0.5 * (ed[0] + ed[-1])
+                if self.options.size_hint is None:
+                    pd1 = 0.5 * (ed[0] + ed[-1])
+
+                else:
+                    pd1 = self.options.size_hint
+
                 dist1 = nla.norm(points[0] - points[-1])
 
                 refine_flag = nm.r_[refine_flag, dist1 > pd1]
-- 
2.43.0


From 411b2977316864183835c8a105d1b434b7c73d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:48 +0000
Subject: [PATCH 137/137] fix: exponential fit: accept all successful exit
 flags of leastsq

---
 sfepy/homogenization/convolutions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/convolutions.py b/sfepy/homogenization/convolutions.py
index d02d242..0f992db 100644
--- a/sfepy/homogenization/convolutions.py
+++ b/sfepy/homogenization/convolutions.py
@@ -52,7 +52,7 @@ def approximate_exponential(x, y):
 
     coefs, ier = leastsq(fun, nm.array([c1, c2]), args=(x, y))
 
-    if ier != 1:
+    if ier not in (1, 2, 3, 4):
         print(c1, c2)
         print(coefs, ier)
         pause('exponential fit failed!')
-- 
2.43.0

