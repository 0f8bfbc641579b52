From bc663e0437f781339296c0bade9900c482770bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 01/67] fix: Trace +/- picks the side its documentation (and
 test/mixed_trace.py) states

The normal points into the '+' cell; the sign was reversed in trace_mat_one_restrict.
---
 xii/assembler/trace_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index c659b10..c37ed3e 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -318,7 +318,7 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
         for fcell in facet_cells:
             mp = Cell(mesh, fcell).midpoint().array()[:gdim]
                     
-            r = t_mp - mp
+            r = mp - t_mp
             r = r / np.linalg.norm(r)
             sign = '+' if np.inner(r, trace_cell_normal) > 0 else '-'
             signs.append(sign)
-- 
2.43.0


From fad76a2ed76bd67c6a8ed299c67594e6cf447122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 02/67] fix: assemble 'avg' and 'jump' traces

trace_mat_two_restrict did not take the tag data trace_mat passes (TypeError for
every call) and mixed INSERT and ADD modes on one PETSc matrix.
---
 xii/assembler/trace_matrix.py | 129 ++++++++++++++++++----------------
 1 file changed, 69 insertions(+), 60 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index c37ed3e..cf9cc5b 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -412,7 +412,7 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
                                  csr=(mat.indptr, mat.indices, mat.data))
 
 
-def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
+def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
     Compute the trace values using avg/jump restriction. A + plus is the one 
     for which the vector cell.midpoint - facet.midpoint agrees in orientation
@@ -423,11 +423,26 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
     
     if trace_mesh is None: trace_mesh = TV.mesh()
 
+    # None means all
+    if tag_data is None:
+        try:
+            marking_function = trace_mesh.marking_function
+            tag_data = (marking_function, set(marking_function.array()))
+        except AttributeError:
+            tag_data = (MeshFunction('size_t', trace_mesh, trace_mesh.topology().dim(), 0),
+                        set((0, )))
+
+    trace_mesh_subdomains, tags = tag_data
     # Init/extract entity map
-    assert get_entity_map(mesh, trace_mesh)
+    assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     # We can get it
     mapping = trace_mesh.parent_entity_map[mesh.id()][fdim]  # Map cell of TV to cells of V
 
+    # Only look at tagged cells
+    trace_cells = itertools.chain(*[map(operator.methodcaller('index'),
+                                        SubsetIterator(trace_mesh_subdomains, tag))
+                                    for tag in tags])
+
     mesh.init(fdim, fdim+1)
     f2c = mesh.topology()(fdim, fdim+1)  # Facets of V to cell of V
 
@@ -444,70 +459,64 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
                        'jump': (lambda x: x, lambda x: -x)}[restriction]
 
     gdim = mesh.geometry().dim()
+    normal_values = normal.vector().get_local().reshape((-1, gdim))
     # Rows
     visited_dofs = [False]*TV.dim()
-    # Column values
-    dof_values = np.zeros(V_basis_f.elm.space_dimension(), dtype='double')
-    with petsc_serial_matrix(TV, V) as mat:
+    rows, cols, values = [], [], []
+    for trace_cell in trace_cells:
+        TV_dof.cell = trace_cell
+        trace_dofs = Tdmap.cell_dofs(trace_cell)
+
+        # Figure out the dofs of V to use here
+        facet_cells = f2c(mapping[trace_cell])
+
+        assert 0 < len(facet_cells) < 3
+        # Ignore boundary facets
+        if len(facet_cells) == 1:
+            facet_cells = [facet_cells[0]]
+            modifiers = (lambda x: x, )  # Do nothing
+        # Search which cell has the right sign
+        else:
+            # Order such that '+' is first
+            t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
+            mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
 
-        for trace_cell in range(trace_mesh.num_cells()):
-            TV_dof.cell = trace_cell
-            trace_dofs = Tdmap.cell_dofs(trace_cell)
+            sign = '+' if np.inner(mp - t_mp, normal_values[trace_cell]) > 0 else '-'
+            # Need to flip
+            if sign == '-':
+                facet_cells = facet_cells[::-1]
+            # As requested
+            modifiers = operator_pieces
 
-            # Figure out the dofs of V to use here
-            facet_cells = f2c(mapping[trace_cell])
+        for local_T, dof_T in enumerate(trace_dofs):
 
-            assert 0 < len(facet_cells) < 3
-            # Ignore boundary facets
-            if len(facet_cells) == 1:
-                facet_cells = [facet_cells[0]]
-                modifiers = (lambda x: x, )  # Do nothing
-            # Search which cell has the right sign
+            if visited_dofs[dof_T]:
+                continue
             else:
-                signs = [None, None]
-                # Order such that '+' is first
-                t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
-                mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
-
-                sign = '+' if np.inner(mp - t_mp, normal(t_mp)) > 0 else '-'
-                # Need to flip
-                if sign == '-':
-                    facet_cells = facet_cells[::-1]
-                # As requested
-                modifiers = operator_pieces
-
-            for local_T, dof_T in enumerate(trace_dofs):
-
-                if visited_dofs[dof_T]:
-                    continue
-                else:
-                    visited_dofs[dof_T] = True
-                    
-                # Define trace dof
-                TV_dof.dof = local_T
-                
-                # Two sweeps to set the values in the row
-                ADD_VALUES = False
-                for modify, cell in zip(modifiers, facet_cells):
-                    V_basis_f.cell = cell
-                    dofs = dmap.cell_dofs(cell)
-
-                    # Eval at V basis functions
-                    for local, dof in enumerate(dofs):
-                        # Set which basis foo
-                        V_basis_f.dof = local
-                        dof_values[local] = modify(TV_dof.eval(V_basis_f))
-                    # Can fill the matrix now
-                    col_indices = np.array(dofs, dtype='int32')
-
-                    if not ADD_VALUES:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.INSERT_VALUES)
-                        ADD_VALUES = True
-                        #print 'setting', dof_T, col_indices, dof_values
-                    else:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.ADD_VALUES)
-                        #print 'adding', dof_T, col_indices, dof_values
-    return mat
+                visited_dofs[dof_T] = True
+
+            # Define trace dof
+            TV_dof.dof = local_T
+
+            # Two sweeps to get the values in the row
+            for modify, cell in zip(modifiers, facet_cells):
+                V_basis_f.cell = cell
+                dofs = dmap.cell_dofs(cell)
+
+                # Eval at V basis functions
+                for local, dof in enumerate(dofs):
+                    # Set which basis foo
+                    V_basis_f.dof = local
+                    rows.append(dof_T)
+                    cols.append(dof)
+                    values.append(modify(TV_dof.eval(V_basis_f)))
+
+    # The cells can share dofs; here the contributions in one position add up
+    mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))
+
+    return PETSc.Mat().createAIJ(comm=PETSc.COMM_WORLD,
+                                 size=mat.shape,
+                                 csr=(mat.indptr, mat.indices, mat.data))
 
 
 def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
-- 
2.43.0


From acb5c8cb3344136ca9638736bd5a878fb9e9f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 03/67] fix: Trace on a non-matching mesh reaches its
 non-conforming fallback

A stray unguarded get_entity_map call raised before the guarded one.
---
 xii/assembler/trace_matrix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index cf9cc5b..8c6141a 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -89,7 +89,6 @@ def trace_mat_no_restrict(V, TV, trace_mesh=None, tag_data=None):
 
     trace_mesh_subdomains, tags = tag_data
     # Init/extract the mapping
-    get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)    
     try:
         assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     except (AssertionError, IndexError):
-- 
2.43.0


From c20336a08546f84c09f3b57471e327f37e21b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 04/67] fix: get_entity_map computes the embedding of the
 requested tags that are not mapped yet

---
 xii/assembler/trace_matrix.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 8c6141a..2e81148 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -535,16 +535,13 @@ def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
             parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
             trace_mesh.parent_entity_map[mesh_id] = parent_entity_map
         else:
-            needed_tags = trace_mesh.tagged_cells - tags
-            compute = True
+            # Of the requested tags we need those with cells that are not mapped
+            mapped_cells = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
+            needed_tags = set(tag for tag in tags
+                              if not mapped_cells.issuperset(subdomains.where_equal(tag)))
             if needed_tags:
-                tagged_trace_entities = set(np.hstack([subdomains.where_equal(tag) for tag in needed_tags]))
-                mapped_trace_entities = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
-                compute = tagged_trace_entities <= mapped_trace_entities
-                
-            if compute:
                 info('\tMissing map for tags %r of mesh %d' % (needed_tags, mesh_id))
-                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
+                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, needed_tags)
                 # Add new
                 for edim in trace_mesh.parent_entity_map[mesh_id]:
                     trace_mesh.parent_entity_map[mesh_id][edim].update(parent_entity_map[edim])
-- 
2.43.0


From 2571d35959b67906b01ce2ef5530ce0d11372f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 05/67] fix: disk_quadrature falls back to degree 19 as it
 announces

---
 xii/assembler/disk_quadrature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/disk_quadrature.py b/xii/assembler/disk_quadrature.py
index 537c813..e030f53 100644
--- a/xii/assembler/disk_quadrature.py
+++ b/xii/assembler/disk_quadrature.py
@@ -12,7 +12,7 @@ def disk_quadrature(degree):
         print(f'REQUESTED EVEN DEGREE {degree-1}. ADJUSTING TO ODD {degree}')                
     if degree > 19:
         print('EXCEEDING MAXIMUM SUPPORTED DEGREE. FALLING BACK TO 19')
-        degree == 19
+        degree = 19
 
     # Templates for weight
     if degree == 1:
-- 
2.43.0


From 8191d65c3586ef54ffeb46f8049b1e114210b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 06/67] fix: disk_quadrature of degree 10, 11 was not exact
 even for degree 2

---
 xii/assembler/disk_quadrature.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/xii/assembler/disk_quadrature.py b/xii/assembler/disk_quadrature.py
index e030f53..45b677b 100644
--- a/xii/assembler/disk_quadrature.py
+++ b/xii/assembler/disk_quadrature.py
@@ -14,6 +14,9 @@ def disk_quadrature(degree):
         print('EXCEEDING MAXIMUM SUPPORTED DEGREE. FALLING BACK TO 19')
         degree = 19
 
+    # The rule for 11 is not available; the next one is exact as well
+    if degree == 11: degree = 13
+
     # Templates for weight
     if degree == 1:
         data = [(3.141592653589793, 0.000000000000000, 0.000000000000000, 1)]
@@ -31,13 +34,6 @@ def disk_quadrature(degree):
                 (0.327176874928167, 0.415187657878755, 0.000000000000000, 2),
                 (0.005591341512851, 0.834794942216211, 0.834794942216211, 3),
                 (0.190570560169519, 0.740334457173511, 0.379016937530835, 4)]
-    elif degree == 11:
-        data = [(-0.103220620849181, 0.000000000000000, 0.000000000000000, 1),
-                (0.000561120485457, 10.081713912649978, 10.081713912649978, 3),
-                (0.234185472691706, 0.329855087221954, 0.329855087221954, 3),
-                (0.123731369524117, 0.163309595229403, 0.163309595229403, 3),
-                (0.194337435615691, 0.582963679648472, 0.582963679648472, 3),
-                (0.129193960146342, 0.862551409331466, 0.191706749096887, 4)]
     elif degree == 13:
         data = [(0.156239869837333, 0.283402832348825, 0.000000000000000, 2),
                 (0.069447409266977, 0.920575474036251, 0.000000000000000, 2),
-- 
2.43.0


From 0f70255289cf5f62c7af589d48e2da3ea9874c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 07/67] fix: MeasureFunction of averages from H(div)/H(curl)
 spaces

---
 xii/assembler/average_matrix.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xii/assembler/average_matrix.py b/xii/assembler/average_matrix.py
index 55ff0ec..cd7fc97 100644
--- a/xii/assembler/average_matrix.py
+++ b/xii/assembler/average_matrix.py
@@ -333,12 +333,10 @@ def MeasureFunction(averaged):
     '''Get measure of the averaging shape as a function on the 1d surface'''
     # Get space on 1d mesh for the measure
     V = averaged.function_space()  # 3d one
-    # Want the measure in scalar space
-    if V.ufl_element().value_shape(): V = V.sub(0).collapse()
-
     mesh_1d = averaged.average_['mesh']
-    # Finally
     TV = average_space(V, mesh_1d)
+    # Want the measure in scalar space; V itself might not have components
+    if TV.ufl_element().value_shape(): TV = TV.sub(0).collapse()
 
     TV_coordinates = TV.tabulate_dof_coordinates().reshape((TV.dim(), -1))
     TV_dm = TV.dofmap()
-- 
2.43.0


From 071ac6c920adf12b94df0f837ba3fcdc8a4c62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 08/67] fix: form with a reduced integral and its unreduced
 counterpart

---
 xii/assembler/reduced_assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/reduced_assembler.py b/xii/assembler/reduced_assembler.py
index 833ead9..3052cfd 100644
--- a/xii/assembler/reduced_assembler.py
+++ b/xii/assembler/reduced_assembler.py
@@ -62,7 +62,9 @@ class ReducedFormAssembler(object):
         components = []
         for integral in form.integrals():
             # Delegate to friend
-            if integral not in reduced_integrals:
+            # NOTE: by identity as for UFL integrals which differ only in
+            # attributes of their terminals are equal
+            if not any(integral is reduced for reduced in reduced_integrals):
                 components.append(xii.assembler.xii_assembly.assemble(Form([integral])))
                 continue
 
-- 
2.43.0


From 64298f7f5ee8adb4a0b09bebbc2569192701f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 09/67] fix: PointTrace, GradientPointTrace of a function do
 not annotate the user's function

---
 xii/assembler/ufl_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index bd692b8..49e7ce2 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -133,6 +133,10 @@ def reconstruct(f):
 
     if is_test_function(f):
         return df.TestFunction(f.function_space())
+
+    # Shares values with f but the attributes we set don't end up in f
+    if isinstance(f, df.Function):
+        return df.Function(f.function_space(), f.vector())
     
     # Others?
     return f
-- 
2.43.0


From 387ca17af21b3fd4bd0c15ae9bd557bf539d4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 10/67] fix: GradientPointTrace at the same point with a
 different tangent is not taken from the cache

---
 xii/assembler/gradient_point_trace_matrix.py |  9 ++-------
 xii/assembler/point_trace_matrix.py          | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/gradient_point_trace_matrix.py b/xii/assembler/gradient_point_trace_matrix.py
index ec91bd8..da3c638 100644
--- a/xii/assembler/gradient_point_trace_matrix.py
+++ b/xii/assembler/gradient_point_trace_matrix.py
@@ -5,7 +5,7 @@ from petsc4py import PETSc
 import numpy as np
 import ufl_legacy as ufl
 
-from xii.assembler.point_trace_matrix import memoize_point_trace
+from xii.assembler.point_trace_matrix import memoize_point_trace, tangent_value
 
 
 @memoize_point_trace
@@ -61,12 +61,7 @@ def gradient_point_trace_matrix_DG(V, TV, x0, cell, tangent):
     rows, cols, values = [], [], []
     for cell in cells:
 
-        if isinstance(tangent, df.Constant):
-            tau = tangent.values()
-        elif isinstance(tangent, df.Function):
-            tau = tangent(Cell(mesh, cell).midpoint().array()[:gdim])
-        else:
-            tau = tangent
+        tau = tangent_value(tangent, mesh, cell)
         
         # Cell for restriction
         Vcell = Cell(mesh, cell)
diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 5f312c8..9b287da 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -20,7 +20,11 @@ def memoize_point_trace(foo):
         try:
             key = key + tuple(data['cell'])
         except:
-            key = key + (data['cell'], )            
+            key = key + (data['cell'], )
+        # Derivative in direction
+        if 'tangent' in data:
+            tau = tangent_value(data['tangent'], V.mesh(), data['cell'])
+            key = key + tuple(np.asarray(tau, dtype=float).flat)
                
         if key not in cache:
             cache[key] = foo(V, TV, trace_mesh, data)
@@ -29,6 +33,16 @@ def memoize_point_trace(foo):
     return cached_trace_mat
 
 
+def tangent_value(tangent, mesh, cell):
+    '''Tangent (Constant, Function or array) in the cell of the mesh'''
+    if isinstance(tangent, df.Constant):
+        return tangent.values()
+    if isinstance(tangent, df.Function):
+        gdim = mesh.geometry().dim()
+        return tangent(Cell(mesh, cell).midpoint().array()[:gdim])
+    return tangent
+
+
 @memoize_point_trace
 def point_trace_mat(V, TV, trace_mesh, data):
     '''
-- 
2.43.0


From 556e833ad374259fd1fdb396a65b75db722af314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 11/67] fix: PointTrace of Lagrange functions

---
 xii/assembler/point_trace_matrix.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 9b287da..a2058f9 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -57,8 +57,7 @@ def point_trace_mat(V, TV, trace_mesh, data):
 
     x0, cell = data['point'], data['cell']
     if V.ufl_element().family() == 'Lagrange':
-        assert len(x0) == V.mesh().geometry().dim()        
-        Tmat = point_trace_matrix_CG(V, TV, x0)
+        Tmat = point_trace_matrix_CG(V, TV, x0, cell=cell)
     else:
         assert V.ufl_element().family() == 'Discontinuous Lagrange'
         assert V.mesh().topology().dim() == 1
@@ -126,30 +125,29 @@ def point_trace_matrix_DG(V, TV, x0, cell):
                                  csr=(mat.indptr, mat.indices, mat.data))
 
 
-def point_trace_matrix_CG(V, TV, x0):
+def point_trace_matrix_CG(V, TV, x0, cell):
     '''
     Let u in V; u = ck phi_k then u(x0) \in TV = ck phi_k(x0). So this 
     is a 1 by dim(V) matrix where the column values are phi_k(x0).
     '''
     mesh = V.mesh()
-    tree = mesh.bounding_box_tree()
-    cell = tree.compute_first_entity_collision(Point(*x0))
-    assert cell < mesh.num_cells()
+    # Point is given as index of the cell vertex
+    assert x0 in mesh.cells()[cell]
 
     # Cell for restriction
     Vcell = Cell(mesh, cell)
     vertex_coordinates = Vcell.get_vertex_coordinates()
-    cell_orientation = Vcell.orientation()
-    x0 = np.fromiter(x0, dtype=float)
+    try:
+        cell_orientation = Vcell.orientation()
+    except:
+        cell_orientation = 0
 
     # Columns - get all components at once
     all_dofs = V.dofmap().cell_dofs(cell).tolist()
     Vel = V.element()
     value_size = V.ufl_element().value_size()
-    basis_values = np.zeros(V.element().space_dimension()*value_size)
-
-    Vel.evaluate_basis_all(basis_values, x0, vertex_coordinates, cell_orientation)
-
+    basis_values = Vel.evaluate_basis_all(mesh.coordinates()[x0], vertex_coordinates, cell_orientation)
+    basis_values = np.reshape(basis_values, (-1, value_size))
 
     # Scalar gets all
     if value_size == 1:
@@ -159,13 +157,13 @@ def point_trace_matrix_CG(V, TV, x0):
         component_dofs = lambda component: V.sub(component).dofmap().cell_dofs(cell)
         
     rows, cols, values = [], [], []
-    for row in map(int, TV.dofmap().cell_dofs(cell)):  # R^n components
-        sub_dofs = component_dofs(row)
+    for component, row in enumerate(map(int, TV.dofmap().cell_dofs(cell))):  # R^n components
+        sub_dofs = component_dofs(component)
         sub_dofs_local = [all_dofs.index(dof) for dof in sub_dofs]
 
         rows.extend([row]*len(sub_dofs))
         cols.extend(sub_dofs)
-        values.extend(basis_values[sub_dofs_local].flat)
+        values.extend(basis_values[sub_dofs_local, component].flat)
 
     mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))        
 
-- 
2.43.0


From 1eceb7e0b80d013b0d131dd91860629788bdae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 12/67] fix: coloured CellPatchAverage with several dofs of the
 same patch

---
 xii/assembler/patch_average_matrix.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 81994c0..014f804 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -129,7 +129,7 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
     color_ids = vertex_f.vector().get_local()    
     # We will do the integration a group at a time
     groups = defaultdict(list)
-    for color in np.asarray(color_ids, dtype='uintp'):
+    for color in np.unique(np.asarray(color_ids, dtype='uintp')):
         if color not in coloring:
             continue
         group = coloring[color]
@@ -167,11 +167,11 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
             volumes[color] = patch_volume
             columns[color] = patch_dofs
 
-            d = np.abs(color_ids - color)
-            index = np.argmin(d)
-            assert d[index] < 1E-13
+            # Several dofs can have the same patch
+            indices, = np.where(np.abs(color_ids - color) < 1E-13)
+            assert len(indices)
             
-            rows[color] = index
+            rows[color] = indices
         # Integrate over group!
         df.assemble(average_form, tensor=v_dofs)
         v_dofs_arr = v_dofs.get_local()
@@ -179,9 +179,10 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
         for color in group_colors:
             patch_values = v_dofs_arr[columns[color]]/volumes[color]
             # Update matrix
-            ii.extend(rows[color]*np.ones_like(columns[color]))
-            jj.extend(columns[color])
-            values.extend(patch_values)
+            for row in rows[color]:
+                ii.extend(row*np.ones_like(columns[color]))
+                jj.extend(columns[color])
+                values.extend(patch_values)
             
         # Reset for next round
         chi_array[:] = 0
-- 
2.43.0


From c7855e9f4c42a3517b275121b0f106bb21328dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 13/67] fix: GradientPointTrace evaluates tangent Function in
 the given cell

---
 xii/assembler/point_trace_matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index a2058f9..f5a2b02 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -38,8 +38,11 @@ def tangent_value(tangent, mesh, cell):
     if isinstance(tangent, df.Constant):
         return tangent.values()
     if isinstance(tangent, df.Function):
-        gdim = mesh.geometry().dim()
-        return tangent(Cell(mesh, cell).midpoint().array()[:gdim])
+        # In the cell; searching for it by midpoint suffers from round off
+        cell, gdim = Cell(mesh, cell), mesh.geometry().dim()
+        tau = np.zeros(tangent.ufl_shape)
+        tangent.eval_cell(tau, cell.midpoint().array()[:gdim], cell)
+        return tau
     return tangent
 
 
-- 
2.43.0


From 66c13606374d1582113197c2b1e0c3aafbe5408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 14/67] fix: injection matrix is cached per method

---
 xii/assembler/injection_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 19f450a..345565d 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -17,7 +17,8 @@ def memoize_inj(inj_mat):
     def cached_inj_mat(Vc, Vf, fine_mesh, data):
         key = ((Vc.ufl_element(), Vc.mesh().id()),
                (Vf.ufl_element(), Vf.mesh().id()),
-               fine_mesh.id())
+               fine_mesh.id(),
+               data['not_nested_method'])
                
         if key not in cache:
             cache[key] = inj_mat(Vc, Vf, fine_mesh, data)
-- 
2.43.0


From 4c22f0010748a6ac1b9575e4eb29b1a7c9e89e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 15/67] fix: injection with the parent map (no method)

---
 xii/assembler/injection_matrix.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 345565d..3e1f362 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -45,8 +45,8 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
     tdim = mesh_f.topology().dim()
     # Refine was used to create it
     keys, fine_to_coarse = list(zip(*list(fine_mesh.parent_entity_map[mesh_c.id()][tdim].items())))
-    fine_to_coarse = np.array(fine_to_coarse, dtype='uintp')
-    fine_to_coarse[np.argsort(keys)] = fine_to_coarse
+    # As array ordered by the fine cells
+    fine_to_coarse = np.array(fine_to_coarse, dtype='uintp')[np.argsort(keys)]
         
     # The idea is to evaluate Vf's degrees of freedom at basis functions of Vc
     fdmap = Vf.dofmap()
@@ -85,8 +85,6 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
             ii.extend([dof]*len(coarse_dofs))
             jj.extend(coarse_dofs)
             vals.extend(row_values)
-            # Insert
-            mat.setValues([dof], coarse_dofs, row_values, PETSc.InsertMode.INSERT_VALUES)
 
     mat = csr_matrix((vals, (ii, jj)), shape=(Vf.dim(), Vc.dim()))        
 
@@ -96,4 +94,4 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
 
     mat.assemble()
 
-    return mat
+    return PETScMatrix(mat)
-- 
2.43.0


From 0577ef7126d04a37db6bbc74c8759e8aff6b5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 16/67] fix: TransposeTrace is the transpose of trace from the
 full mesh

---
 xii/assembler/transpose_trace_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/transpose_trace_matrix.py b/xii/assembler/transpose_trace_matrix.py
index 77ffaa6..f7203c5 100644
--- a/xii/assembler/transpose_trace_matrix.py
+++ b/xii/assembler/transpose_trace_matrix.py
@@ -21,6 +21,7 @@ def memoize_trace(trace_mat):
 @memoize_trace
 def transpose_trace_mat(V, TV, reduced_mesh, tag_data):
     '''TODO'''
-    E = trace_mat_no_restrict(V, TV, trace_mesh=reduced_mesh)
+    # NOTE: here TV is the space on the full mesh and V is its trace
+    E = trace_mat_no_restrict(TV, V, trace_mesh=reduced_mesh)
     T = E.transpose()
     return df.PETScMatrix(T)
-- 
2.43.0


From 5a50474f7cb89e9c412694abcb3c0bda57e79576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:56 +0000
Subject: [PATCH 17/67] fix: cached reduction operators reflect current
 numbering, geometry and user data

---
 xii/assembler/average_matrix.py         |  5 ++--
 xii/assembler/flux_average_matrix.py    |  5 ++--
 xii/assembler/injection_matrix.py       |  5 ++--
 xii/assembler/interpolation_matrix.py   |  5 ++--
 xii/assembler/mean_matrix.py            |  7 +++---
 xii/assembler/patch_average_matrix.py   |  7 +++---
 xii/assembler/point_trace_matrix.py     |  5 ++--
 xii/assembler/restriction_matrix.py     |  5 ++--
 xii/assembler/surface_mean_matrix.py    |  5 ++--
 xii/assembler/trace_matrix.py           |  8 +++---
 xii/assembler/transpose_trace_matrix.py |  5 ++--
 xii/assembler/ufl_utils.py              | 33 +++++++++++++++++++++++++
 12 files changed, 70 insertions(+), 25 deletions(-)

diff --git a/xii/assembler/average_matrix.py b/xii/assembler/average_matrix.py
index cd7fc97..34a3aa5 100644
--- a/xii/assembler/average_matrix.py
+++ b/xii/assembler/average_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
+from xii.assembler.ufl_utils import space_key
 from xii.assembler.average_form import average_cell, average_space
 
 from numpy.polynomial.legendre import leggauss
@@ -13,8 +14,8 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
+        key = (space_key(V),
+               space_key(TV),
                data['shape'])
 
         if key not in cache:
diff --git a/xii/assembler/flux_average_matrix.py b/xii/assembler/flux_average_matrix.py
index 4e18069..66d95ec 100644
--- a/xii/assembler/flux_average_matrix.py
+++ b/xii/assembler/flux_average_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
+from xii.assembler.ufl_utils import space_key
 from xii.assembler.average_form import average_cell, average_space
 
 from numpy.polynomial.legendre import leggauss
@@ -13,8 +14,8 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
+        key = (space_key(V),
+               space_key(TV),
                data['shape'])
 
         if key not in cache:
diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 3e1f362..2008ace 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix
+from xii.assembler.ufl_utils import space_key
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
 from xii import *
 
@@ -15,8 +16,8 @@ def memoize_inj(inj_mat):
     '''Cached injection'''
     cache = {}
     def cached_inj_mat(Vc, Vf, fine_mesh, data):
-        key = ((Vc.ufl_element(), Vc.mesh().id()),
-               (Vf.ufl_element(), Vf.mesh().id()),
+        key = (space_key(Vc),
+               space_key(Vf),
                fine_mesh.id(),
                data['not_nested_method'])
                
diff --git a/xii/assembler/interpolation_matrix.py b/xii/assembler/interpolation_matrix.py
index df1fda2..bcd2829 100644
--- a/xii/assembler/interpolation_matrix.py
+++ b/xii/assembler/interpolation_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix
+from xii.assembler.ufl_utils import space_key
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
 from petsc4py import PETSc
 import dolfin as df
@@ -9,8 +10,8 @@ def memoize_interp(f):
     '''Caching interpolation'''
     cache = {}
     def cached_interpolation_mat(V, Q):
-        key = ((V.ufl_element(), V.mesh().id(), V.mesh().num_cells()),
-               (Q.ufl_element(), Q.mesh().id(), Q.mesh().num_cells()))
+        key = (space_key(V),
+               space_key(Q))
                
         if key not in cache:
             cache[key] = f(V, Q)
diff --git a/xii/assembler/mean_matrix.py b/xii/assembler/mean_matrix.py
index 2153987..719152b 100644
--- a/xii/assembler/mean_matrix.py
+++ b/xii/assembler/mean_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
+from xii.assembler.ufl_utils import space_key, data_key
 from xii.assembler.mean_form import mean_cell, mean_space
 
 from numpy.polynomial.legendre import leggauss
@@ -15,9 +16,9 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['weight'], data['measure'])
+        key = (space_key(V),
+               space_key(TV),
+               data_key(data['weight']), data_key(data['measure']))
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 014f804..4f79bb9 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
+from xii.assembler.ufl_utils import space_key, data_key
 from xii.assembler.patch_average_form import patch_average_cell, patch_average_space
 
 from numpy.polynomial.legendre import leggauss
@@ -15,9 +16,9 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['vertex_f'], data['patch_f'])
+        key = (space_key(V),
+               space_key(TV),
+               data_key(data['vertex_f']), data_key(data['patch_f']))
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index f5a2b02..b4ae180 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.ufl_utils import space_key
 from scipy.sparse import csr_matrix
 from dolfin import PETScMatrix, Point, Cell
 import dolfin as df
@@ -9,8 +10,8 @@ def memoize_point_trace(foo):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, trace_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()))
+        key = (space_key(V),
+               space_key(TV))
 
         try:
             key = key + tuple(data['point'])
diff --git a/xii/assembler/restriction_matrix.py b/xii/assembler/restriction_matrix.py
index bebd9ba..3523758 100644
--- a/xii/assembler/restriction_matrix.py
+++ b/xii/assembler/restriction_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix
+from xii.assembler.ufl_utils import space_key
 from xii.assembler.restriction_assembly import restriction_cell
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
 
@@ -11,8 +12,8 @@ def memoize_restriction(restriction_mat):
     '''Cached restriction'''
     cache = {}
     def cached_restriction_mat(V, TV, reduced_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()))
+        key = (space_key(V),
+               space_key(TV))
 
         if key not in cache:
             cache[key] = restriction_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/surface_mean_matrix.py b/xii/assembler/surface_mean_matrix.py
index 1109365..dbae0c6 100644
--- a/xii/assembler/surface_mean_matrix.py
+++ b/xii/assembler/surface_mean_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix
+from xii.assembler.ufl_utils import space_key
 from xii.linalg.convert import convert
 import xii.assembler.trace_matrix as trace_m
 import xii.assembler.trace_form as trace_f
@@ -14,8 +15,8 @@ def memoize_trace(trace_mat):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, trace_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()))
+        key = (space_key(V),
+               space_key(TV))
                
         if key not in cache:
             cache[key] = trace_mat(V, TV, trace_mesh, data)
diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 2e81148..b62435f 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -1,4 +1,5 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix
+from xii.assembler.ufl_utils import space_key, data_key
 from xii.assembler.trace_assembly import trace_cell
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
 from xii.meshing.embedded_mesh import build_embedding_map
@@ -19,9 +20,10 @@ def memoize_trace(trace_mat):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, trace_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
-               data['restriction'], data['normal'], tuple(data['tag_data'][1]))
+        key = (space_key(V),
+               space_key(TV),
+               data['restriction'], data_key(data['normal']),
+               data_key(data['tag_data'][0]), tuple(data['tag_data'][1]))
                
         if key not in cache:
             cache[key] = trace_mat(V, TV, trace_mesh, data)
diff --git a/xii/assembler/transpose_trace_matrix.py b/xii/assembler/transpose_trace_matrix.py
index f7203c5..414c8b9 100644
--- a/xii/assembler/transpose_trace_matrix.py
+++ b/xii/assembler/transpose_trace_matrix.py
@@ -1,3 +1,4 @@
+from xii.assembler.ufl_utils import space_key
 from xii.assembler.trace_matrix import trace_mat_no_restrict
 import dolfin as df
 
@@ -7,8 +8,8 @@ def memoize_trace(trace_mat):
     '''Cached trace'''
     cache = {}
     def cached_trace_mat(V, TV, reduced_mesh, tag_data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
+        key = (space_key(V),
+               space_key(TV),
                reduced_mesh.id())
                
         if key not in cache:
diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index 49e7ce2..26af541 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -1,5 +1,6 @@
 from dolfin.function.argument import Argument
 from ufl_legacy.core.terminal import Terminal
+from ufl_legacy.core.expr import Expr
 
 import dolfin as df
 
@@ -140,3 +141,35 @@ def reconstruct(f):
     
     # Others?
     return f
+
+
+def space_key(V):
+    '''
+    Spaces with equal keys have the same algebraic representation. Element
+    and mesh are not enough for this: different spaces may have their dofs
+    numbered differently (reordering, periodicity, ...) and the mesh can be
+    moved.
+    '''
+    mesh, dofmap = V.mesh(), V.dofmap()
+    dofs = dofmap.entity_closure_dofs(mesh, mesh.topology().dim())
+    return (V.ufl_element(), mesh.id(), hash(tuple(dofs)), hash(mesh.coordinates().tobytes()))
+
+
+def data_key(data):
+    '''User data and the current values it holds, as these can change in place'''
+    if isinstance(data, df.Function):
+        return (data, hash(data.vector().get_local().tobytes()))
+
+    if isinstance(data, df.Constant):
+        return (data, tuple(data.values()))
+
+    if isinstance(data, df.Measure):
+        return (data, data_key(data.subdomain_data()))
+    # Mesh functions
+    if hasattr(data, 'array') and hasattr(data, 'mesh'):
+        return (data.mesh().id(), data.dim(), hash(data.array().tobytes()))
+    # UFL expressions are determined by their coefficients
+    if isinstance(data, Expr) and not is_terminal(data):
+        return (data, ) + tuple(map(data_key, sorted(set(traverse_terminals(data)), key=repr)))
+    # Number, None, ...
+    return (data, )
-- 
2.43.0


From d643778bf95ee4defc13df1edea764d754807e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 18/67] fix: cellwise vector data are read through the dofmap

With reorder_dofs_serial=False the components of vector DG0 functions
are not interleaved so sided traces, centroid/circumcenter refinement and
dual mesh used wrong normals/centers
---
 xii/assembler/trace_matrix.py |  5 +++--
 xii/meshing/cell_centers.py   | 10 ++++++++++
 xii/meshing/dual_mesh.py      |  6 +++---
 xii/meshing/refinement.py     |  6 +++---
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index b62435f..350f434 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -3,6 +3,7 @@ from xii.assembler.ufl_utils import space_key, data_key
 from xii.assembler.trace_assembly import trace_cell
 from xii.assembler.fem_eval import DegreeOfFreedom, FEBasisFunction
 from xii.meshing.embedded_mesh import build_embedding_map
+from xii.meshing.cell_centers import cellwise_values
 from xii.assembler.nonconforming_trace_matrix import nonconforming_trace_mat
 
 from dolfin import Cell, PETScMatrix, warning, info, SubsetIterator, MeshFunction
@@ -308,7 +309,7 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
                                     for tag in tags]))
 
     # Things specific to restriction    
-    normal_values = normal.vector().get_local().reshape((-1, gdim))
+    normal_values = cellwise_values(normal)
 
     def pick_cell(restriction, facet_cells, mesh, trace_cell, trace_mesh, normal=normal_values, gdim=gdim):
         '''Pick cell for computing the restriction'''
@@ -460,7 +461,7 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
                        'jump': (lambda x: x, lambda x: -x)}[restriction]
 
     gdim = mesh.geometry().dim()
-    normal_values = normal.vector().get_local().reshape((-1, gdim))
+    normal_values = cellwise_values(normal)
     # Rows
     visited_dofs = [False]*TV.dim()
     rows, cols, values = [], [], []
diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 87fec56..77791f9 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -272,6 +272,16 @@ PYBIND11_MODULE(SIGNATURE, m)
     .def_readwrite("mesh", &Circumcenter_3_3::mesh);
 }
 """
+def cellwise_values(f):
+    '''Values of piecewise constant vector function, cell index is the row'''
+    dmap = f.function_space().dofmap()
+    ncells = f.function_space().mesh().num_cells()
+    # NOTE: how the components are laid out depends on reordering of dofs
+    dofs = np.array([dmap.cell_dofs(cell) for cell in range(ncells)])
+
+    return f.vector().get_local()[dofs]
+
+
 codes = {(1, 2): code_1_2, (1, 3): code_1_3,
          (2, 3): code_2_3, (2, 2): code_2_2,
          (3, 3): code_3_3}
diff --git a/xii/meshing/dual_mesh.py b/xii/meshing/dual_mesh.py
index eabdff3..2b27924 100644
--- a/xii/meshing/dual_mesh.py
+++ b/xii/meshing/dual_mesh.py
@@ -1,4 +1,4 @@
-from xii.meshing.cell_centers import CellCircumcenter, CellCentroid
+from xii.meshing.cell_centers import CellCircumcenter, CellCentroid, cellwise_values
 from xii.meshing.make_mesh_cpp import make_mesh
 import dolfin as df
 import numpy as np
@@ -96,9 +96,9 @@ def dual_mesh_triangle(mesh, center):
     center = {'centroid': CellCentroid,
               'circumcenter': CellCircumcenter}[center]
 
-    centers = df.interpolate(
+    centers = cellwise_values(df.interpolate(
         center(mesh), df.VectorFunctionSpace(mesh, 'DG', 0)
-    ).vector().get_local().reshape((-1, gdim))
+    ))
 
     # ... and the facet midpoints
     facet_centers = np.array([f.midpoint().array() for f in df.facets(mesh)])
diff --git a/xii/meshing/refinement.py b/xii/meshing/refinement.py
index 0f70062..9d8ec6e 100644
--- a/xii/meshing/refinement.py
+++ b/xii/meshing/refinement.py
@@ -1,5 +1,5 @@
 from xii.meshing.make_mesh_cpp import make_mesh
-from xii.meshing.cell_centers import CellCentroid, CellCircumcenter
+from xii.meshing.cell_centers import CellCentroid, CellCircumcenter, cellwise_values
 
 from itertools import combinations, count
 from dolfin import Mesh
@@ -111,7 +111,7 @@ def centroid_refine(mesh, strict=1E-10, nrefs=1):
     # new_pts = lambda mesh: np.mean(mesh.coordinates()[mesh.cells()], axis=1)
     def new_pts(mesh):
         ncells = mesh.num_cells()
-        new_pts = CellCentroid(mesh).vector().get_local().reshape((ncells, -1))
+        new_pts = cellwise_values(CellCentroid(mesh))
 
         return new_pts
        
@@ -123,7 +123,7 @@ def circumcenter_refine(mesh, strict=1E-10, nrefs=1):
     # How to
     def new_pts(mesh):
         ncells = mesh.num_cells()
-        new_pts = CellCircumcenter(mesh).vector().get_local().reshape((ncells, -1))
+        new_pts = cellwise_values(CellCircumcenter(mesh))
 
         return new_pts
        
-- 
2.43.0


From 760f962548d8a15837c91703f9542d5ae128b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 19/67] fix: averages and 3d-1d traces of vectors assumed
 interleaved components

Rows of the i-th component are now taken from the dofmap of the component
(shift by i is not valid with reorder_dofs_serial=False)
---
 xii/assembler/average_matrix.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/xii/assembler/average_matrix.py b/xii/assembler/average_matrix.py
index 34a3aa5..bc75c98 100644
--- a/xii/assembler/average_matrix.py
+++ b/xii/assembler/average_matrix.py
@@ -84,9 +84,11 @@ def average_matrix(V, TV, shape):
     
     TV_dm = TV.dofmap()
     V_dm = V.dofmap()
-    # For non scalar we plan to make compoenents by shift
+    # For non scalar the same point is evaluated once for all the components
     if value_size > 1:
-        TV_dm = TV.sub(0).dofmap()
+        TV_dms = [TV.sub(i).dofmap() for i in range(value_size)]
+    else:
+        TV_dms = [TV_dm]
 
     Vel = V.element()               
     basis_values = np.zeros(V.element().space_dimension()*value_size)
@@ -100,9 +102,9 @@ def average_matrix(V, TV, shape):
             n = v0 - v1
 
             # The idea is now to minimize the point evaluation
-            scalar_dofs = TV_dm.cell_dofs(line_cell.index())
-            scalar_dofs_x = TV_coordinates[scalar_dofs]
-            for scalar_row, avg_point in zip(scalar_dofs, scalar_dofs_x):
+            component_dofs = [dm.cell_dofs(line_cell.index()) for dm in TV_dms]
+            scalar_dofs_x = TV_coordinates[component_dofs[0]]
+            for rows, avg_point in zip(zip(*component_dofs), scalar_dofs_x):
                 # Avg point here has the role of 'height' coordinate
                 quadrature = shape.quadrature(avg_point, n)
                 integration_points = quadrature.points
@@ -141,7 +143,7 @@ def average_matrix(V, TV, shape):
                 # rows of the matrix
                 column_indices = np.array(list(data.keys()), dtype='int32')
                 for shift in range(value_size):
-                    row = scalar_row + shift
+                    row = rows[shift]
                     column_values = np.array([data[col][shift] for col in column_indices])
                     mat.setValues([row], column_indices, column_values, PETSc.InsertMode.INSERT_VALUES)
             # On to next avg point
@@ -287,9 +289,11 @@ def trace_3d1d_matrix(V, TV, reduced_mesh):
     TV_coordinates = TV.tabulate_dof_coordinates().reshape((TV.dim(), -1))
     TV_dm = TV.dofmap()
     V_dm = V.dofmap()
-    # For non scalar we plan to make compoenents by shift
+    # For non scalar the same point is evaluated once for all the components
     if value_size > 1:
-        TV_dm = TV.sub(0).dofmap()
+        TV_dms = [TV.sub(i).dofmap() for i in range(value_size)]
+    else:
+        TV_dms = [TV_dm]
 
     Vel = V.element()               
     basis_values = np.zeros(V.element().space_dimension()*value_size)
@@ -299,8 +303,8 @@ def trace_3d1d_matrix(V, TV, reduced_mesh):
                                    total=line_mesh.num_cells()):
             # Get the tangent => orthogonal tangent vectors
             # The idea is now to minimize the point evaluation
-            scalar_dofs = TV_dm.cell_dofs(line_cell.index())
-            scalar_dofs_x = TV_coordinates[scalar_dofs]
+            component_dofs = [dm.cell_dofs(line_cell.index()) for dm in TV_dms]
+            scalar_dofs_x = TV_coordinates[component_dofs[0]]
 
             # Let's get a 3d cell to use for getting the V values
             # CG assumption allows taking any
@@ -315,7 +319,7 @@ def trace_3d1d_matrix(V, TV, reduced_mesh):
             # were considered
             column_indices = np.array(V_dm.cell_dofs(tet_cell), dtype='int32')
 
-            for scalar_row, avg_point in zip(scalar_dofs, scalar_dofs_x):
+            for rows, avg_point in zip(zip(*component_dofs), scalar_dofs_x):
                 # 3d at point
                 basis_values[:] = Vel.evaluate_basis_all(avg_point, vertex_coordinates, cell_orientation)
                 # The thing now is that with data we can assign to several
@@ -323,7 +327,7 @@ def trace_3d1d_matrix(V, TV, reduced_mesh):
                 # (xx, xy, yx, ...) component of Q
                 data = basis_values.reshape((-1, value_size)).T
                 for shift, column_values in enumerate(data):
-                    row = scalar_row + shift
+                    row = rows[shift]
                     mat.setValues([row], column_indices, column_values, PETSc.InsertMode.INSERT_VALUES)
             # On to next avg point
         # On to next cell
-- 
2.43.0


From 1b7c9a1050992ba43202171bec6387bed4c94074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 20/67] fix: monolithic with shared sub-expressions, zero
 differences, numbers and diagonal operators

---
 xii/linalg/collapse_iter.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 176621c..5d65954 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -1,6 +1,7 @@
 from collections import defaultdict
+from copy import copy
 from functools import reduce
-from itertools import chain
+from itertools import chain, count
 import operator
 
 import networkx as nx
@@ -67,14 +68,19 @@ def expr2graph(expr):
             children = (child, reduce(op, rest))
         
         for (index, child) in enumerate(children):
+            # Other operators are leafs, e.g. diagonal operators of cbc.block
+            if not is_terminal(child) and not get_children(child):
+                child = xii_convert.collapse(child)
             # We want to keep track of order of arguments so we attach ...
             if is_terminal(child):
                 child_node = f'A_{terminal_counter}'                                
                 terminal_labels[child].append(child_node)
                 terminal_counter += 1
             else:
-                subexpr.append(child)
-                child_node = child
+                # One object might be used several times in the expression but
+                # each time is a different node
+                child_node = copy(child)
+                subexpr.append(child_node)
             # ... index to edge
             g.add_edge(parent, child_node, index=index)
             
@@ -201,6 +207,10 @@ def collapse_add(A, B):
 
 def collapse_sub(A, B):
     '''A - B to single matrix'''
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
+    if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
+        return collapse_mul(-1, B)
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -238,6 +248,9 @@ def collapse_mul(A, B):
         C_ = B_.copy()
         C_.scale(A)
         return df.PETScMatrix(C_)
+
+    if is_number(A) and is_number(B):
+        return A*B
     
     # Otherwise
     raise ValueError
@@ -247,6 +260,10 @@ def collapse(expr):
     '''To single matrix'''
     if is_terminal(expr): return expr
 
+    # Nothing to do operation wise
+    if not isinstance(expr, block_mat) and not get_children(expr):
+        return xii_convert.collapse(expr)
+
     if isinstance(expr, block_mat):
         blocks = np.array([collapse(sub) for sub in chain(*expr.blocks)])
         return block_mat(blocks.reshape(expr.blocks.shape))
@@ -255,13 +272,14 @@ def collapse(expr):
     # Here terminals is terminal -> it's name; we need to flip it
     terminals = {val: key for (key, values) in terminals.items() for val in values}
     # Starting from leave we want to change the expression to simple tree
-    done = False
+    done, counter = False, count()
     while not done:
         for tree in list(collapsable_trees(graph)):
             # FIXME: this is a mock up
             # terminal = collapse_tree(sub_expr)
             mat = collapse_tree(tree, terminals)
-            node = str(mat)
+            # (unique, as same matrix can be the value of several trees)
+            node = f'C_{next(counter)}'
             # In graph we put name ...
             graph, done = replace_tree(graph, tree, node)
             # ... and we have a lookup
-- 
2.43.0


From 3961f65b535064f420dc0f6b622328f6dfd66bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 21/67] fix: ii_convert of transposed compositions, zero
 differences, sums in products; sizes of block vectors

Number in a rectangular block is refused (it was silently zero), off-diagonal
number of a square block is the multiple of identity it stands for
---
 xii/linalg/convert.py | 46 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 5149ff8..2a714f5 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -45,10 +45,12 @@ def convert(bmat, algorithm='numpy'):
 
             if is_number(A):
                 # Diagonal matrices can be anything provided square
-                if i == j and row_sizes[i] == col_sizes[j]:
+                if row_sizes[i] == col_sizes[j] and (i == j or A != 0):
                     A = diagonal_matrix(row_sizes[i], A)
                 else:
-                    # Offdiagonal can only be zero
+                    # Otherwise we can only be zero
+                    if A != 0:
+                        raise ValueError('Block (%d, %d) is not square, cannot be %g*I' % (i, j, A))
                     A = zero_matrix(row_sizes[i], col_sizes[j])
                 #else:
                 #    A = 0
@@ -145,8 +147,10 @@ def collapse_tr(bmat):
         C_ = PETSc.Mat()
         A_.transpose(C_)
         return PETScMatrix(C_)
+    if is_number(A):
+        return A
     # Recurse
-    return collapse_tr(collapse(bmat))
+    return collapse_tr(block_transpose(collapse(A)))
 
 
 def collapse_add(bmat):
@@ -166,12 +170,16 @@ def collapse_add(bmat):
         C_.axpy(1., B_, PETSc.Mat.Structure.DIFFERENT)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_add(collapse(A) + collapse(B))
+    return collapse_add(block_add(collapse(A), collapse(B)))
 
 
 def collapse_sub(bmat):
     '''A - B to single matrix'''
     A, B = bmat.A, bmat.B
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
+    if is_petsc_mat(B) and is_number(A) and abs(A) < 1E-14:
+        return collapse(-1*B)
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -182,7 +190,7 @@ def collapse_sub(bmat):
         C_.axpy(-1., B_, PETSc.Mat.Structure.DIFFERENT)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_sub(collapse(A) - collapse(B))
+    return collapse_sub(block_sub(collapse(A), collapse(B)))
 
 
 def collapse_mul(bmat):
@@ -218,7 +226,7 @@ def collapse_mul(bmat):
             return collapse(collapse(A)*collapse(B))
     # Recurse
     else:
-        return collapse_mul(collapse(A)*collapse(reduce(operator.mul, B)))                                    
+        return collapse_mul(block_mul(collapse(A), collapse(reduce(block_mul, B))))                                    
 
     
 # Conversion via numpy
@@ -269,11 +277,11 @@ def block_mat_to_petsc(bmat):
         for i in range(matrix.size(0)):
             yield matrix.getrow(i)
 
-    row_sizes, col_sizes = get_sizes(bmat)
+    row_sizes, col_sizes = bmat_sizes(bmat)
     row_offsets = np.cumsum([0] + list(row_sizes))
     col_offsets = np.cumsum([0] + list(col_sizes))
 
-    with petsc_serial_matrix(row_offsets[-1], col_offsets[-1]) as mat:
+    with petsc_serial_matrix(int(row_offsets[-1]), int(col_offsets[-1])) as mat:
         row = 0
         for row_blocks in bmat.blocks:
             # Zip the row iterators of the matrices together
@@ -306,25 +314,15 @@ def get_dims(thing):
     # Now let's handdle block stuff
     # Multiplication
     if isinstance(thing, block_mul):
-        A, B = thing.chain[0], thing.chain[1:]
-
-        dims_A, dims_B = get_dims(A), get_dims(B[0])
         # A number does not change
-        if dims_A is None:
-            return dims_B
-        if dims_B is None:
-            return dims_A
+        dims = [dim for dim in map(get_dims, thing.chain) if dim is not None]
+        if not dims:
+            return None
         # Otherwise, consistency
-        if len(B) == 1:
+        for dims_A, dims_B in zip(dims[:-1], dims[1:]):
             assert len(dims_A) == len(dims_B) 
             assert dims_A[1] == dims_B[0], (dims_A, dims_B) 
-            return (dims_A[0], dims_B[1])
-        else:
-            dims_B = get_dims(reduce(operator.mul, B))
-            
-            assert len(dims_A) == len(dims_B) 
-            assert dims_A[1] == dims_B[0], (dims_A, dims_B)
-            return (dims_A[0], dims_B[1])
+        return (dims[0][0], dims[-1][1])
     # +, -
     if isinstance(thing, (block_add, block_sub)):
         A, B = thing.A, thing.B
@@ -359,7 +357,7 @@ def get_dims(thing):
 def bmat_sizes(bmat):
     '''Return a tuple which represents sizes of (blocks of) bmat'''
     if isinstance(bmat, block_vec):
-        return tuple(map(get_dims, block_vec.blocks))
+        return tuple(map(get_dims, bmat.blocks))
 
     if isinstance(bmat, block_mat):
         vec = bmat.create_vec(0)
-- 
2.43.0


From 01160620ed95bd36ad79bd902864ebecbabbc791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 22/67] fix: apply_bc with return_apply_b, diag_val, dict
 conditions, empty conditions, zero diagonal block; as_block of PETScMatrix

apply_b is returned whenever it is asked for (also without conditions, for
a single matrix and for symmetric=False), respects diag_val and dictionary
conditions. Dirichlet conditions in zero block of multiplier failed in PETSc.
---
 xii/linalg/bc_apply.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index ed85140..6715419 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -16,8 +16,9 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     Apply block boundary conditions to block system A, b    
     '''
     # Specs of do nothing
+    do_nothing = lambda b: b
     if bcs is None or not bcs or (isinstance(bcs, list) and not any(bc for bc in bcs)):
-        return A, b
+        return (A, b, do_nothing) if return_apply_b else (A, b)
     
     # Allow for A, b be simple matrices. To proceed we wrap them as
     # block objects
@@ -47,13 +48,15 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     bcs_ = []
     for bc in bcs:
         assert isinstance(bc, (DirichletBC, list, dict)), (type(bc), )
-        if isinstance(bc, DirichletBC):
+        if isinstance(bc, (DirichletBC, dict)):
             bcs_.append([bc])
         else:
             bcs_.append(bc)
     bcs = bcs_
 
-    if not bcs or not any(bcs): return A, b
+    if not bcs or not any(bcs):
+        if has_wrapped_A: A, b = A[0][0], b[0]
+        return (A, b, do_nothing) if return_apply_b else (A, b)
 
     # Obtain a monolithic matrix
     AA, bb = list(map(convert, (A, b)))
@@ -84,9 +87,16 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             rows.extend(shift + np.array(list(bc.keys()), dtype='int32'))
             x_values.extend(list(bc.values()))
             
-    rows = np.hstack(rows)
+    rows = np.array(rows, dtype='int32')
     x_values = np.array(x_values)
 
+    # PETSc wants that the diagonal entries of rows are in the sparsity pattern
+    # while they might not be, e.g. in the zero block of Lagrange multiplier
+    AA.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
+    for row in rows:
+        AA.setValue(row, row, 0., PETSc.InsertMode.ADD_VALUES)
+    AA.assemble()
+
     x = bb.copy()
     x.zeroEntries()
     x.setValues(rows, x_values)
@@ -97,7 +107,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         blocks.append(PETSc.IS().createStride(last-first, first, 1))
 
         
-    if return_apply_b and symmetric:
+    if return_apply_b:
         # We don't want to reassemble system and apply bcs (when they are 
         # updated) to the (new) matrix and the rhs. Matrix is expensive 
         # AND the change of bcs only effects the rhs. So what we build
@@ -105,7 +115,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         # if by assemble_system (i.e. in a symmetric way)
         def apply_b(bb, AA=AA.copy(), dofs=rows, bcs=bcs, blocks=blocks):
             # Pick up the updated values
-            values = np.array(sum((list(bc.get_boundary_values().values()) if isinstance(bc, DirichletBC) else []
+            values = np.array(sum((list((bc.get_boundary_values() if isinstance(bc, DirichletBC) else bc).values())
                                    for bcs_sub in bcs for bc in bcs_sub),
                                   []))
             # Taken from cbc.block
@@ -117,14 +127,16 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
 
             AA.mult(c, Ac)  # Note: we work with the deep copy of A
             
-            b = convert(bb)  # We cond't get view here ...
+            is_block = isinstance(bb, block_vec)
+            b = convert(bb if is_block else block_vec([bb]))  # We cond't get view here ...
             b_vec = as_backend_type(b).vec()
-            b_vec.axpy(-1, Ac)  # Elliminate
-            b_vec.setValues(dofs, values)
+            if symmetric: b_vec.axpy(-1, Ac)  # Elliminate
+            b_vec.setValues(dofs, diag_val*values)
             b_vec.assemble()
 
+            b = as_block(b, blocks)
             bb *= 0  # ... so copy
-            bb += as_block(b, blocks)
+            bb += b if is_block else b[0]
                 
             return bb
 
@@ -137,7 +149,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     b = as_block(bb, blocks)
     A = as_block(AA, blocks)
     
-    if has_wrapped_A: return A[0][0], b[0]
+    if has_wrapped_A: A, b = A[0][0], b[0]
 
     if return_apply_b:
         return A, b, apply_b
@@ -173,7 +185,7 @@ def as_block(monolithic, blocks):
     if isinstance(monolithic, (GenericVector, Vector)):
         return as_block(as_backend_type(monolithic).vec(), blocks)
 
-    if isinstance(monolithic, (Matrix, )):
+    if isinstance(monolithic, (Matrix, PETScMatrix)):
         return as_block(as_backend_type(monolithic).mat(), blocks)
 
     if isinstance(monolithic, PETSc.Vec):
-- 
2.43.0


From 06737aac97334f7b2e36ed21835ebb338f1ceedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 23/67] fix: VectorizedOperator for lists of spaces

---
 xii/linalg/block_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 853d7ff..464e3f1 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -197,7 +197,7 @@ class VectorizedOperator(block_base):
             size,  = set(Wi.dim() for Wi in W)
 
             # Matches A
-            n, n = get_dims(bmat)
+            n, m = get_dims(bmat)
             assert n == m == size
 
             A = block_diag_mat([bmat]*len(W))
@@ -241,7 +241,7 @@ class VectorizedOperator(block_base):
         return self.__matvec__(self, b)
 
     @vec_pool
-    def create_vec(self, dim):
+    def create_vec(self, dim=1):
         return self.__create_vec__(dim)
 
     
-- 
2.43.0


From 13d754a3f3ccdf1c328efda12a3fa2b0c36fb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 24/67] fix: unpacked blocks of RearangeOperator refer to
 memory of the vector they came from

---
 xii/linalg/block_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 464e3f1..aa67a53 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -359,9 +359,12 @@ class RearangeOperator(block_base):
                 unpacked[blocks[0]] = bi
             else:
                 x_petsc = as_backend_type(bi).vec()
-                subvecs = [PETScVector(x_petsc.getSubVector(dofs)) for dofs in block_dofs]
-                for j, subvec in zip(blocks, subvecs):
-                    unpacked[j] = subvec
+                for j, dofs in zip(blocks, block_dofs):
+                    # NOTE: the subvector might share the memory of x_petsc
+                    # which can be gone before the result is
+                    subvec = x_petsc.getSubVector(dofs)
+                    unpacked[j] = PETScVector(subvec.copy())
+                    x_petsc.restoreSubVector(dofs, subvec)
         ans = block_vec(unpacked)
         return ans
 
-- 
2.43.0


From a28fb64a43ef2513bac94a281276041d7c6abe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 25/67] fix: reduction and regrouping operators accept offsets
 as tuple as documented

---
 xii/linalg/block_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index aa67a53..4ab1805 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -381,7 +381,7 @@ class ReductionOperator(RearangeOperator):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
         
-        offsets = [0] + offsets
+        offsets = [0] + list(offsets)
         mapping = tuple(tuple(range(f, l)) for f, l in zip(offsets[:-1], offsets[1:]))
         RearangeOperator.__init__(self, mapping, W)
         self.offsets = offsets
@@ -391,7 +391,7 @@ class RegroupOperator(block_base):
     def __init__(self, offsets, W):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
-        self.offsets = [0] + offsets
+        self.offsets = [0] + list(offsets)
 
     def matvec(self, b):
         '''Reduce'''
-- 
2.43.0


From 1c6ccde9ad6b16d3e7b467be0a9239edef76b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 26/67] fix: ii_PETScOperator with a nullspace

---
 xii/linalg/block_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 4ab1805..92066a6 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -23,7 +23,7 @@ def block_diag_mat(diagonal):
     return block_mat(blocks)
 
 
-def ii_PETScOperator(bmat, nullspace):
+def ii_PETScOperator(bmat, nullspace=None):
     '''Return an object with mult method which acts like bmat*'''
     colspace_vec, rowspace_vec = bmat.create_vec(0), bmat.create_vec(1)
 
@@ -100,9 +100,9 @@ def ii_PETScOperator(bmat, nullspace):
     mat.setPythonContext(Foo(bmat))
 
     if nullspace is not None:
-        Z = PETSc.NullSpace(constant=True,
-                            vectors=[as_backend_type(v).vec() for v in map(convert, nullspace)],
-                            comm=PETSc.COMM_WORLD)
+        # In the format of vectors which the operator acts on
+        vectors = [as_petsc_nest(v) if is_block else as_petsc(v) for v in nullspace]
+        Z = PETSc.NullSpace().create(vectors=vectors, comm=PETSc.COMM_WORLD)
         mat.setNullSpace(Z)
     mat.setUp()
 
-- 
2.43.0


From 3f88131f7d70434457fc0462686a61fb50f156c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 27/67] fix: nest of a block matrix drops multiples of identity

---
 xii/linalg/nest.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index dfdd1b9..e81e4a7 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -3,7 +3,7 @@ petsc4py.init(sys.argv)
 from petsc4py import PETSc
 
 from xii.linalg.matrix_utils import as_petsc, diagonal_matrix
-from xii.linalg.convert import convert
+from xii.linalg.convert import convert, bmat_sizes
 from block.algebraic.petsc import LU, SUPERLU_LU, AMG, Elasticity
 from block.algebraic.petsc.precond import precond
 from block import block_mat, block_vec, block_mul, block_add
@@ -145,6 +145,11 @@ def nest(tensor, elim_zeros_tol=1E-15, W=None):
                 if isinstance(tensor[i][j], (int, float)):
                     # assert i != j, (i, j, tensor[i][j])
                     block = None
+                    # Numbers are multiples of identity
+                    if tensor[i][j] != 0:
+                        row_sizes, col_sizes = bmat_sizes(tensor)
+                        assert row_sizes[i] == col_sizes[j]
+                        block = as_petsc(diagonal_matrix(row_sizes[i], tensor[i][j]))
                 else:
                     # Optimize for zeros and insert None                       
                     block = as_petsc(convert(tensor[i][j]))
-- 
2.43.0


From 78a574d2d90cb6207c321e02ba770775353259f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 28/67] fix: ii_Function checks its components, interpolate
 keeps wiring of the vectors

---
 xii/linalg/function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/function.py b/xii/linalg/function.py
index 34474d3..eadb089 100644
--- a/xii/linalg/function.py
+++ b/xii/linalg/function.py
@@ -25,7 +25,7 @@ class ii_Function(object):
             assert len(components) == len(W)
             # Functions them selves
             if hasattr(first(components), 'function_space'):
-                assert [c.function_space() == Wi for c, Wi in zip(components, W)]
+                assert all(c.function_space() == Wi for c, Wi in zip(components, W))
                 self.functions = components
             # The components can be vectors in that case
             else:
@@ -81,7 +81,8 @@ class ii_Function(object):
         Interpolate other ii_Function/ntuple of interpolable things into self.
         '''
         assert len(self) == len(g)
-        [fi.assign(df.interpolate(gi, fi.function_space())) for (fi, gi) in zip(self, g)]
+        # NOTE: assign would replace the coefficient vector
+        [fi.interpolate(gi) for (fi, gi) in zip(self, g)]
 
         return self
 
-- 
2.43.0


From d035d9e6c3dddc6ce116f0655f3d2dad26de524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 29/67] fix: BlockNullspace with constants and numbers, vectors
 dependent on several others

---
 xii/linalg/block_nullspace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/block_nullspace.py b/xii/linalg/block_nullspace.py
index 005b076..3a3ef9e 100644
--- a/xii/linalg/block_nullspace.py
+++ b/xii/linalg/block_nullspace.py
@@ -26,15 +26,17 @@ class BlockNullspace(object):
         # Substite constancts
         for i, vi in enumerate(vec):
             if isinstance(vi, dolfin.Constant):
-                vec[i] = interpolate(vi, self.W[i]).vector()
+                vec[i] = dolfin.interpolate(vi, self.W[i]).vector()
             elif isinstance(vi, (float, int)):
-                vec[i] = interpolate(Constant(vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
             elif isinstance(vi, (list, tuple)):
-                vec[i] = interpolate(Constant(*vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
                 
+        norm0 = vec.norm()
         for b, alpha in zip(self, self.angles(vec)):
-            assert abs(abs(alpha/vec.norm())-1) > 1E-10
             vec -= alpha*b
+        # There must be something left
+        assert vec.norm() > 1E-10*norm0
         # Normalize    
         vec *= 1./vec.norm()
 
-- 
2.43.0


From b232a5b6b45d16d5f27248cceb6696fdccd3e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 30/67] fix: scipy_solve returns residuals, operators of Krylov
 solvers from rectangular blocks

---
 xii/linalg/krylov_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/krylov_api.py b/xii/linalg/krylov_api.py
index 35e2f68..4a4ba0a 100644
--- a/xii/linalg/krylov_api.py
+++ b/xii/linalg/krylov_api.py
@@ -16,7 +16,7 @@ class ScipyLinOp(sp.LinearOperator):
         col_sizes = [v.local_size() for v in bmat.create_vec(1)]
 
         self.shape = (sum(row_sizes), sum(col_sizes))
-        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in row_sizes])
+        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in col_sizes])
             
     def _matvec(self, xarr):
         # Fill
@@ -82,7 +82,9 @@ def scipy_solve(method, AA, bb, tol, M, x0, maxiter=None, **kwargs):
     krylov_solve = getattr(sp, method)
 
     residuals = []
-    callback = lambda x, res=residuals: (residuals.append(np.linalg.norm(x)),
+    # The callback gets the iterate or (some gmres-s) the norm of the residual
+    residual_norm = lambda x: x if np.isscalar(x) else np.linalg.norm(bb_ - AA_.matvec(x))
+    callback = lambda x, res=residuals: (residuals.append(residual_norm(x)),
                                          print('{} residual norm {}'.format(len(res), res[-1])))
     
     xarr, status = krylov_solve(A=AA_, b=bb_, M=M_, x0=x0_, tol=tol,
-- 
2.43.0


From 5925789d40500183d40cec9abf057d8857b09023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 31/67] fix: FESpaceOperator.collapse with a recycled vector

---
 xii/linalg/fe_space_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/fe_space_op.py b/xii/linalg/fe_space_op.py
index 963dcbe..8b3150d 100644
--- a/xii/linalg/fe_space_op.py
+++ b/xii/linalg/fe_space_op.py
@@ -1,6 +1,7 @@
 from block.block_base import block_base
 from block.object_pool import vec_pool
 import scipy.sparse as sparse
+import numpy as np
 from petsc4py import PETSc
 import dolfin as df
 
@@ -26,7 +27,7 @@ class FESpaceOperator(block_base):
 
         # Otherwise compute it, but only once
         x = self.create_vec(dim=1)
-        x_values = x.get_local()
+        x_values = np.zeros(x.local_size())  # x might come from the pool
 
         columns = []
         df.info('Collapsing to %d x %d matrix' % (self.V0.dim(), self.V1.dim()))
-- 
2.43.0


From 107cb7cc8588ea4816fe8126ccbe7c0d2770b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 32/67] fix: L20_riesz_map inverts the L20 inner product,
 nullspace basis with multiple eigenvalues

---
 xii/linalg/sherman_morrison.py | 36 ++++++++--------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/xii/linalg/sherman_morrison.py b/xii/linalg/sherman_morrison.py
index 6bb8dc3..64afa02 100644
--- a/xii/linalg/sherman_morrison.py
+++ b/xii/linalg/sherman_morrison.py
@@ -17,14 +17,11 @@ def orthonormalize(basis, M, tol=1E-10):
             G[i, j] = zi.inner(M*zj)
             G[j, i] = G[i, j]
 
-    vals, vecs = np.linalg.eig(G)
-    # Symmatric matrices have real spectra so something would be wrong if
-    assert np.all(np.abs(vals.imag) < tol)
-    vals = vals.real
+    # Symmetric matrices have real spectra and orthonormal eigenvectors (also
+    # in case of multiple eigenvalues)
+    vals, vecs = np.linalg.eigh(G)
     # The matrix should have been an inner product so 
     assert np.all(vals > 0)
-    # Want invariant subspaces of dim 1 for each eigenvalue, so unique eigenvalues
-    assert len(np.unique(np.round(vals, int(-np.log10(tol))))) == len(vals)
 
     vecs = vecs.T 
 
@@ -100,29 +97,12 @@ class L20_riesz_map(block_base):
         block_base.__init__(self)
         self.P = Projector(V, nullspace)
         self.iM = inv(self.P.M)
-        # M - (M*Z)*Z.T*M = M*P and so we want inv(P)*inv(M)
-        # inv(P) uses woodbory formula applied to id - outer(pi, di)
-        #
-        #   inv(id - outer(pi, di)) = id + outer(pi, di)/(1-sum(inner(pi, di)))
-        #
-        self.primal_basis = self.P.primal_basis
-        self.dual_basis = self.P.dual_basis
-        # The denominator 1-sum(inner(pi, di)) can be precomputed and since
-        # inner(pi, di) = 1 we have
-        self.scale = 1 - len(self.primal_basis)
+        # M - (M*Z)*Z.T*M = M*P so this inverts on (the dual of) functions
+        # that are orthogonal to the nullspace
 
     def matvec(self, x):
-        '''Sherman-Woodburry'''
-        y = self.iM*x  # From dual to primal
-        basis = zip(self.primal_basis, self.dual_basis)
-
-        pi, di = next(basis)
-        w = di.inner(y)*pi
-        for pi, di in basis:
-            w.axpy(di.inner(y), pi)
-        w *= (1/self.scale)
-        
-        return x + w
+        '''From dual to primal and remove the nullspace'''
+        return self.P*(self.iM*x)
     
 # -------------------------------------------------------------------
 
@@ -156,4 +136,4 @@ if __name__ == '__main__':
     iL20 = L20_riesz_map(V, nullspace)
     y = iL20*x  # Apply some operator that is "blind" on the nullspace
     # Check inverse
-    assert norm(x-y) < 1E-13
+    assert norm(Pfh.vector()-y) < 1E-10
-- 
2.43.0


From a786b6eecce7e0dda48f71a2ee0313cdc56c5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 33/67] fix: form_adjoint of forms with both arguments from one
 space, keeps marks of every reduction

---
 xii/assembler/block_form.py | 38 ++++++++++++++++++-------------------
 xii/assembler/ufl_utils.py  | 11 +++++++++++
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index cb0620c..d30e0fd 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -1,4 +1,4 @@
-from xii.assembler.ufl_utils import traverse_terminals, replace as ii_replace
+from xii.assembler.ufl_utils import is_terminal, reduction_attributes
 from dolfin.function.argument import Argument
 from itertools import dropwhile
 from dolfin import *
@@ -188,24 +188,24 @@ def form_adjoint(expr):
         return expr.reconstruct(integrand=form_adjoint(expr.integrand()))
 
     # For adjoint we need one trial and one test function. The idea is
-    # then exchange the two while keeping track of trace attributes
-    arguments = set([f for f in traverse_terminals(expr) if isinstance(f, Argument)])
-
-    ii_attrs = ('trace_', 'restriction_', 'average_')
-
-    adj_type = {0: TrialFunction, 1: TestFunction}
-    for arg in arguments:
-        adj_arg = adj_type[arg.number()](arg.function_space())
-        # Record trace attributes
-        attrs = []
-        for attr in ii_attrs:
-            if hasattr(arg, attr):
-                setattr(adj_arg, attr, getattr(arg, attr))
-                attrs.append(attr)
-        # Substitute
-        expr = ii_replace(expr, arg, adj_arg, attrs)
-
-    return expr
+    # then exchange the two while keeping track of trace attributes. Note
+    # that the exchange must be simultaneous as the two can be from same space
+    if is_terminal(expr):
+        if not isinstance(expr, Argument):
+            return expr
+
+        adj_type = {0: TrialFunction, 1: TestFunction}
+        adj_arg = adj_type[expr.number()](expr.function_space())
+        for attr in reduction_attributes(expr):
+            setattr(adj_arg, attr, getattr(expr, attr))
+        return adj_arg
+
+    operands = list(map(form_adjoint, expr.ufl_operands))
+    # Nothing to exchange below
+    if all(new is old for new, old in zip(operands, expr.ufl_operands)):
+        return expr
+
+    return expr._ufl_expr_reconstruct_(*operands)
 
 
 def make_selfadjoint(bform):
diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index 26af541..17db5e0 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -22,6 +22,17 @@ def is_terminal(o):
     return isinstance(o, Terminal)
 
 
+# What the reduction operators mark their operands with
+REDUCTION_ATTRIBUTES = ('trace_', 'transpose_trace_', 'average_', 'flux_average_',
+                        'patch_average_', 'mean_', 'surface_mean_', 'dirac_', 'grad_dirac_',
+                        'restriction_', 'extension_', 'injection_')
+
+
+def reduction_attributes(o):
+    '''Names of the reductions that o is marked for'''
+    return tuple(attr for attr in REDUCTION_ATTRIBUTES if hasattr(o, attr))
+
+
 def traverse(expr):
     '''Traverse the UFL expression tree'''
     if expr.ufl_operands:
-- 
2.43.0


From d60769d1eb419327b5b0475b9ff6a3464aaf913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 34/67] fix: arity of block forms with numbers

---
 xii/assembler/block_form.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index d30e0fd..894175d 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -41,8 +41,8 @@ def is_bilinear_form(form):
     '''There is a trial function'''
     if isinstance(form, ufl.Form):
         return bool(trial_function(form))
-    # Block
-    return all(map(is_bilinear_form, form))
+    # Block; numbers stand for (multiples of) zero/identity operators
+    return all(is_bilinear_form(f) for f in form if not is_number(f))
 
 
 def is_linear_form(form):
@@ -50,7 +50,7 @@ def is_linear_form(form):
     if isinstance(form, ufl.Form):
         return not is_bilinear_form(form) and len(test_function(form)) == 1 
     # Block
-    return all(map(is_linear_form, form))
+    return all(is_linear_form(f) for f in form if not is_number(f))
 
 
 def first(iterable):
-- 
2.43.0


From 03b051f8c12ea59368e8476009f2e69e75a09648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 35/67] fix: forms that combine several flux averages

---
 xii/assembler/ufl_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index 17db5e0..c396b4f 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -1,6 +1,7 @@
 from dolfin.function.argument import Argument
 from ufl_legacy.core.terminal import Terminal
 from ufl_legacy.core.expr import Expr
+from ufl_legacy.form import Form
 
 import dolfin as df
 
@@ -132,7 +133,9 @@ def is_test_function(v):
 
 def form_arity(form):
     '''How many args in the form'''
-    return len(form.arguments())
+    # NOTE: integral by integral since reductions that change the function
+    # space (flux averages) make the arguments of integrals differ
+    return max((len(Form([integral]).arguments()) for integral in form.integrals()), default=0)
 
 # FIXME: fun problem is it linear?
 
-- 
2.43.0


From 54483b0e316a74a1b5341fbb00ea7611ffade5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 36/67] fix: block forms with flux averages

---
 xii/assembler/block_form.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index 894175d..bb2ea17 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -37,6 +37,19 @@ def test_function(form):
     return sum(list(map(test_function, form)), ())
 
 
+def primal_space(arg):
+    '''The space that the argument was reduced from'''
+    # In fluxes the argument is only a stand-in
+    if hasattr(arg, 'flux_average_'):
+        return arg.flux_average_['domain']
+    return arg.function_space()
+
+
+def is_over(args, V):
+    '''Are the arguments (all) from V?'''
+    return len(args) > 0 and all(primal_space(arg) == V for arg in args)
+
+
 def is_bilinear_form(form):
     '''There is a trial function'''
     if isinstance(form, ufl.Form):
@@ -48,7 +61,7 @@ def is_bilinear_form(form):
 def is_linear_form(form):
     '''There is only a test function'''
     if isinstance(form, ufl.Form):
-        return not is_bilinear_form(form) and len(test_function(form)) == 1 
+        return not is_bilinear_form(form) and len(test_function(form)) > 0
     # Block
     return all(is_linear_form(f) for f in form if not is_number(f))
 
@@ -82,11 +95,11 @@ class _block_form(list):
     def __setitem__(self, index, value):
         '''self[i][j] 0 value'''
         if self.V1 is None:
-            assert is_number(value) or ((Argument(self.V0[index], 0), ), None) == (test_function(value), None), (Argument(self.V0[index], 0), test_function(value))
+            assert is_number(value) or is_over(test_function(value), self.V0[index]), (self.V0[index], test_function(value))
             return list.__setitem__(self, index, value)
 
-        assert is_number(value) or (Argument(self.V1, 0), ) == test_function(value), (Argument(self.V1, 0), test_function(value))
-        assert is_number(value) or (Argument(self.V0[index], 1), ) == trial_function(value)
+        assert is_number(value) or is_over(test_function(value), self.V1), (self.V1, test_function(value))
+        assert is_number(value) or is_over(trial_function(value), self.V0[index]), (self.V0[index], trial_function(value))
         
         return list.__setitem__(self, index, value)
 
@@ -101,7 +114,7 @@ class _block_form(list):
             
             test_f, = test_function(form)  # Only one
             # Look for the index
-            V = test_f.function_space()
+            V = primal_space(test_f)
             i, _ = next(dropwhile(lambda i_Vi, V=V: i_Vi[1]!=V, enumerate(self.V0)))
             
             self[i] += form
@@ -111,10 +124,10 @@ class _block_form(list):
         test_f, = test_function(form)  # Only one
         trial_f, = trial_function(form)  # Only one
 
-        V = trial_f.function_space()
+        V = primal_space(trial_f)
         col, _ = next(dropwhile(lambda i_Vi, V=V: i_Vi[1]!=V, enumerate(self.V0)))
 
-        V = test_f.function_space()
+        V = primal_space(test_f)
         row, _ = next(dropwhile(lambda i_Vi, V=V: i_Vi[1]!=V, enumerate(self.V0)))
 
         self[row][col] += form
-- 
2.43.0


From 7cb8d4812fa2339bea5b870c3447ff393e498bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 37/67] fix: derivative of forms with reductions other than
 trace, average and restriction

---
 xii/nonlin/jacobian.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index 10148d6..955638e 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -1,4 +1,4 @@
-from xii.assembler.ufl_utils import replace as ii_replace
+from xii.assembler.ufl_utils import replace as ii_replace, reduction_attributes
 
 import dolfin as df
 import ufl_legacy as ufl
@@ -36,20 +36,13 @@ def block_jacobian(bf, foos):
 
 def is_restricted(x):
     '''Is x marked for restriction (in some way we support)'''
-    for rtype in ('trace_', 'average_', 'restriction_'):
-        if hasattr(x, rtype):
-            return True
-        
-    return False
+    return len(reduction_attributes(x)) > 0
 
 
 def restriction_type(x):
     '''How is x restricted'''
-    assert is_restricted(x)
-
-    for rtype in ('trace_', 'average_', 'restriction_'):
-        if hasattr(x, rtype):
-            return rtype
+    rtype, = reduction_attributes(x)
+    return rtype
 
 
 def get_trialfunction(f):
-- 
2.43.0


From cb867ba9c84010a09ecce706a6db92993442e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 38/67] fix: derivative of forms with expressions

---
 xii/nonlin/jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index 955638e..20f6f87 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -65,7 +65,7 @@ def ii_derivative(f, x):
     # NOTE: in the following I try to avoid assembly of zero forms because
     # these might not be well-defined for xii assembler. Also, assembling
     # zeros is useless
-    for fi in [c for c in f.coefficients() if not isinstance(c, df.Constant)]:
+    for fi in [c for c in f.coefficients() if isinstance(c, df.Function)]:
         # Short circuit if (partial fi)/(partial x) is 0
         if not ((fi == x) or fi.vector().id() == x.vector().id()): continue
 
-- 
2.43.0


From 659de7df8d7aa31f676f21c0028b0ed715316372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 39/67] fix: nest of a block matrix with zero rows or columns

---
 xii/linalg/nest.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index e81e4a7..6d4db10 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -2,7 +2,7 @@ import sys, petsc4py
 petsc4py.init(sys.argv)
 from petsc4py import PETSc
 
-from xii.linalg.matrix_utils import as_petsc, diagonal_matrix
+from xii.linalg.matrix_utils import as_petsc, diagonal_matrix, zero_matrix
 from xii.linalg.convert import convert, bmat_sizes
 from block.algebraic.petsc import LU, SUPERLU_LU, AMG, Elasticity
 from block.algebraic.petsc.precond import precond
@@ -158,6 +158,13 @@ def nest(tensor, elim_zeros_tol=1E-15, W=None):
                         block = None
                 A[i][j] = block
 
+        # Rows/columns left without any block need one to keep shape info
+        empty = [(i, 0) for i in range(nrows) if all(block is None for block in A[i])]
+        empty.extend((0, j) for j in range(ncols) if all(row[j] is None for row in A))
+        for i, j in empty:
+            row_sizes, col_sizes = bmat_sizes(tensor)
+            A[i][j] = as_petsc(zero_matrix(row_sizes[i], col_sizes[j]))
+
         mat = PETSc.Mat().createNest(A)
         mat.assemble()
         return mat
-- 
2.43.0


From 70aa727091437aa93c3465e24fb71ad345072e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 40/67] fix: vertex map of computed embeddings

---
 xii/meshing/embedded_mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 23b4dd0..78bb9fc 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -180,8 +180,11 @@ class EmbeddedMesh(df.Mesh):
                 assert dist < tol
 
                 entity_mapping[the_cell] = entity
+                # The vertices pair up as the closest ones
+                for vertex in c2v(the_cell):
+                    closest = np.argmin(np.linalg.norm(entity_x-x[vertex], 2, axis=1))
+                    vertex_mapping[vertex] = entity_vertices[closest]
 
-                # FIXME: do we need vertex embedding here?
         self.parent_entity_map[parent_mesh.id()] = {0: vertex_mapping, tdim: entity_mapping}
 
         if not any(pmesh.id() == parent_mesh.id() for pmesh in self.parent_meshes):
-- 
2.43.0


From a921a96a2a6073bddeefd0fc16032e2437433e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 41/67] fix: embedding map of a single cell

---
 xii/meshing/embedded_mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 78bb9fc..f45e6ce 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -376,7 +376,11 @@ def InnerNormal(mesh, orientation):
 
 def is_1_sequence(iterable):
     '''value mathces the index (-offset)'''
-    steps = np.unique(np.diff(np.sort(np.fromiter(iterable, dtype='uintp'))))
+    values = np.sort(np.fromiter(iterable, dtype='uintp'))
+    if len(values) == 1:
+        return True
+
+    steps = np.unique(np.diff(values))
     if not len(steps) == 1:
         return False
 
-- 
2.43.0


From a0ff630b2c5a93e8206bc03f62ad6c2e35932568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 42/67] fix: transfer of markers with partial embedding

---
 xii/meshing/transfer_markers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/transfer_markers.py b/xii/meshing/transfer_markers.py
index 18c4dd0..99510ee 100644
--- a/xii/meshing/transfer_markers.py
+++ b/xii/meshing/transfer_markers.py
@@ -44,10 +44,12 @@ def transfer_markers(mesh, f, markers=None):
     p_values = f.array()
 
     for entity in range(len(ch_values)):
+        # Embedding might be known only for part of the child
+        ch_cells = [ch_cell for ch_cell in ch_e2c(entity) if ch_cell in child_parent_cell]
+        if not ch_cells: continue
         # As vertices in parent
         e_as_vertex = set(child_parent_vertex[v] for v in ch_e2v(entity))
 
-        ch_cells = iter(ch_e2c(entity))
         # One of the cells entities should match
         for ch_cell in ch_cells:
             for p_entity in p_c2e(child_parent_cell[ch_cell]):
-- 
2.43.0


From a468cefd14121eb31790f772e38c65559412dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 43/67] fix: tangent of loops and of curves with several pieces

---
 xii/meshing/embedded_mesh.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index f45e6ce..61f41a0 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -564,27 +564,16 @@ class TangentCurve(df.Function):
         roots = [v for v in range(mesh.num_vertices()) if len(v2c(v)) == 1]
         values = np.zeros(V.dim()).reshape((-1, gdim))
         visited = np.zeros(mesh.num_cells(), dtype=bool)        
-        if roots:
-            if root is not None:
-                assert root in roots
-            else:
-                root = roots.pop()
-                
-            g = nx.Graph()
-            g.add_edges_from(mesh.cells())
-
-            for (v0, v1) in nx.algorithms.traversal.dfs_edges(g, root):
-                cell, = set(v2c(v0)) & set(v2c(v1))
-                v0, v1 = X[v0], X[v1]
-
-                t = (v1 - v0)/np.linalg.norm(v1-v0)
-                values[cell, :] = t
-                visited[cell] = True
-
-        np.any(visited) and print('Found unvisited edges in tangent curve computation')
-                
-        for cell in np.where(~visited)[0]:
-            v0, v1 = c2v(cell)
+        if root is not None:
+            assert root in roots
+            roots.append(root)
+
+        g = nx.Graph()
+        g.add_edges_from(mesh.cells())
+        # Follow edges from the root, then from ends of other pieces and what
+        # is left are loops where we start anywhere
+        for (v0, v1) in nx.edge_dfs(g, list(reversed(roots)) + list(g.nodes)):
+            cell, = set(v2c(v0)) & set(v2c(v1))
             v0, v1 = X[v0], X[v1]
 
             t = (v1 - v0)/np.linalg.norm(v1-v0)
-- 
2.43.0


From 2d289894c8d45029a7f741cc6c6a64000faa45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 44/67] fix: winding number and normal of closed curves

---
 xii/meshing/embedded_mesh.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 61f41a0..e2c80c8 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -4,6 +4,7 @@ from functools import reduce
 from itertools import chain, dropwhile, repeat
 from .make_mesh_cpp import make_mesh
 from .dg_utils import OrientedFacetNormal, pcws_constant
+from .branching import is_loop
 import networkx as nx
 from collections import defaultdict
 import ufl_legacy as ufl
@@ -516,26 +517,27 @@ def wind_number(mesh, points):
 
 
 def encloses_points(mesh, points, tol=1E-2):
-    '''Point is outside/not enclosed if it wind number is > tol'''
-    return wind_number(mesh, points) > tol
+    '''Point is inside/enclosed if the size of its wind number is > tol'''
+    return np.abs(wind_number(mesh, points)) > tol
 
 
 def NormalCurve(mesh, outside=None, tol=1E-2):
     '''In plane we can get things by rotating the tangent to get unit normal'''
     # The idea is to use a given point to figure out wind number and orient
-    # accordingly
+    # accordingly; rotated tangent points out if the loop runs counterclockwise
+    t = TangentCurve(mesh)
+    R = df.Constant(((0, 1), (-1, 0)))
+    x = df.SpatialCoordinate(mesh)
+    ccw = df.assemble(df.inner(x, df.dot(R, t))*df.dx) > 0
+
     if outside is None:
         outside = np.max(mesh.coordinates(), axis=0) + np.ones(2)
     assert outside.shape == (2, )
     
     n,  = wind_number(mesh, np.array([outside]))
-    if abs(n) < tol:
-        # Orient with
-        R = df.Constant(((0, 1), (-1, 0)))
-    else:
+    if (abs(n) < tol) != ccw:
         R = df.Constant(((0, -1), (1, 0)))
         
-    t = TangentCurve(mesh)
     V = t.function_space()
     v = df.TestFunction(V)
 
-- 
2.43.0


From 5be78866d0189458bb935e3616344fdada4eaaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 45/67] fix: maps of overlap mesh are like those of other
 embedded meshes

---
 xii/meshing/subdomain_mesh.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xii/meshing/subdomain_mesh.py b/xii/meshing/subdomain_mesh.py
index 2a690a8..6361a25 100644
--- a/xii/meshing/subdomain_mesh.py
+++ b/xii/meshing/subdomain_mesh.py
@@ -50,7 +50,7 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
     # Get som idea of mesh size to make relative comparison of coords
     scale = max(emesh_x.max(axis=0) - emesh_x.min(axis=0))
     # Also build the map for vertices
-    entity_map = {0: [None]*emesh.num_vertices(), tdim: [None]*emesh.num_cells()}
+    entity_map = {0: {}, tdim: {}}
     vertex_map = entity_map[0]
     cell_map = entity_map[tdim]
 
@@ -85,10 +85,11 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
         # Insert
         cell_map[cell.index()] = the_cell.pop()
     # Sanity
-    assert not any(v is None for v in entity_map[0])
-    assert not any(v is None for v in entity_map[tdim])
+    assert len(entity_map[0]) == emesh.num_vertices()
+    assert len(entity_map[tdim]) == emesh.num_cells()
     # At this point we can build add the map
     emesh.parent_entity_map[mesh2.id()] = entity_map
+    emesh.parent_meshes.append(mesh2)
 
     return emesh
 
@@ -110,13 +111,14 @@ if __name__ == '__main__':
     map1 = mesh12.parent_entity_map[mesh1.id()][2]
     map2 = mesh12.parent_entity_map[mesh2.id()][2]
     # Cell check out
-    for c, c1, c2 in zip(df.cells(mesh12), map1, map2):
+    for c, c1, c2 in zip(df.cells(mesh12), map1.values(), map2.values()):
         assert df.near(c.midpoint().distance(df.Cell(mesh1, c1).midpoint()), 0, 1E-14)
         assert df.near(c.midpoint().distance(df.Cell(mesh2, c2).midpoint()), 0, 1E-14)
         
     # Vertices are not that important but anyways
     x1 = mesh1.coordinates(); map1 = mesh12.parent_entity_map[mesh1.id()][0]
     x2 = mesh2.coordinates(); map2 = mesh12.parent_entity_map[mesh2.id()][0]
-    for x, i1, i2 in zip(mesh12.coordinates(), map1, map2):
+    for i, x in enumerate(mesh12.coordinates()):
+        i1, i2 = map1[i], map2[i]
         assert np.linalg.norm(x - x1[i1]) < 1E-13
         assert np.linalg.norm(x - x2[i2]) < 1E-13
-- 
2.43.0


From eb40f4fc935f71e34691173b7f8bb5f2ca0e4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 46/67] fix: maps of mortar interface to subdomain meshes

---
 xii/meshing/mortar_mesh.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/xii/meshing/mortar_mesh.py b/xii/meshing/mortar_mesh.py
index ed94252..fc311ef 100644
--- a/xii/meshing/mortar_mesh.py
+++ b/xii/meshing/mortar_mesh.py
@@ -69,8 +69,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     subdomain_meshes = {tag: EmbeddedMesh(subdomains, tag) for tag in markers}
 
     # Alloc the entity maps for the embedded mesh
-    interface_map = {subdomain_meshes[tag].id(): [None]*interface_mesh.num_cells()
-                     for tag in markers}
+    interface_map = {subdomain_meshes[tag].id(): {0: {}, tdim-1: {}} for tag in markers}
     
     # THe maps are filled by the following idea. Using marking function
     # of interface mesh one cat get cells of that color and useing entity
@@ -83,13 +82,21 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     sub_mesh_map = lambda tag: dict(
         (mesh_c, submesh_c)
         for submesh_c, mesh_c in
-        enumerate(subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim])
+        subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim].items()
+    )
+    # ... and same for vertices
+    sub_mesh_vmap = lambda tag: dict(
+        (mesh_v, submesh_v)
+        for submesh_v, mesh_v in
+        subdomain_meshes[tag].parent_entity_map[mesh.id()][0].items()
     )
 
     # Thec cell-cell connectivity of each submesh
     c2c = {tag: sub_mesh_map(tag) for tag in markers}
+    v2v = {tag: sub_mesh_vmap(tag) for tag in markers}
     # A connectivity of interface mesh cells to facets of global mesh
     c2f = interface_mesh.parent_entity_map[mesh.id()][tdim-1]
+    iv2v = interface_mesh.parent_entity_map[mesh.id()][0]
 
     for color, tags in enumerate(color_to_tag_map):
         # Precompute for the 2 tags
@@ -106,13 +113,17 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
                 # The map uses local cell
                 local_cell = c2c[tag][gc]
                 mesh_id = submesh.id()
+                # Cell vertices in the numbering of submesh
+                vertex_map = {v: v2v[tag][iv2v[v]] for v in cell.entities(0)}
                 
                 found = False
                 for submesh_facet in df.facets(df.Cell(submesh, local_cell)):
-                    found = df.near(cell.midpoint().distance(submesh_facet.midpoint()), 0, tol)
+                    found = set(submesh_facet.entities(0)) == set(vertex_map.values())
                     if found:
-                        interface_map[mesh_id][cell_index] = submesh_facet.index()
+                        interface_map[mesh_id][tdim-1][cell_index] = submesh_facet.index()
+                        interface_map[mesh_id][0].update(vertex_map)
                         break
+                assert found
 
     # Collapse to list; I want list indexing
     subdomain_meshes = np.array([subdomain_meshes[m] for m in markers]) 
@@ -120,9 +131,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
 
     # Parent in the sense that the colored piece of interface
     # could have been created from mesh
-    interface_mesh.parent_entity_map.update(
-        dict((k, {tdim-1: v}) for k, v in list(interface_map.items()))
-    )
+    interface_mesh.parent_entity_map.update(interface_map)
 
     return subdomain_meshes, interface_mesh, color_map
 
-- 
2.43.0


From f1b543da51d00cb9a82026f405904de01b64f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 47/67] fix: Delaunay measures compared facet normals with
 themselves

---
 xii/meshing/cell_centers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 77791f9..869a190 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -530,7 +530,7 @@ def is_delaunay_interior(mesh, _tol=1E-10):
     f = df.Function(V)
     df.assemble(L, f.vector())
 
-    g = f.copy()
+    g = f.copy(deepcopy=True)
     df.assemble(Lmask, g.vector())
     mask = np.abs(g.vector().get_local() > _tol)
 
@@ -560,7 +560,7 @@ def is_delaunay_exterior(mesh, _tol=1E-10):
     f = df.Function(V)
     df.assemble(L, f.vector())
 
-    g = f.copy()
+    g = f.copy(deepcopy=True)
     df.assemble(Lmask, g.vector())
     mask = np.abs(g.vector().get_local()) > _tol
 
-- 
2.43.0


From ecf4c99d9fd7001b2442d0c6dc5f4dd3d923bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 48/67] fix: CentroidDistance2 is the sum of distances to the
 facet

---
 xii/meshing/cell_centers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 869a190..4698b24 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -466,7 +466,7 @@ def CentroidVector(mesh):
 
 def CentroidDistance2(mesh):
     '''Magnitude of CentroidVector as a DLT function'''
-    return _CenterDistance(mesh, Center=CentroidVector2)
+    return _CenterDistance2(mesh, Center=CentroidVector2)
 
                            
 def CentroidVector2(mesh):
-- 
2.43.0


From 3aefc765e316929e37cd9e05d0f5f1e15b82b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 49/67] fix: circumcenters of intervals in 1d and 3d

---
 xii/meshing/cell_centers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 4698b24..2c0fde5 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -73,12 +73,13 @@ public:
     std::vector<double> coordinates;
     cell.get_vertex_coordinates(coordinates);
 
-    Eigen::Vector2d v0(coordinates[0], coordinates[1], coordinates[2]);
-    Eigen::Vector2d v1(coordinates[3], coordinates[4], coordinates[5]);
-    Eigen::Vector2d y = 0.5*(v0 + v1);
+    Eigen::Vector3d v0(coordinates[0], coordinates[1], coordinates[2]);
+    Eigen::Vector3d v1(coordinates[3], coordinates[4], coordinates[5]);
+    Eigen::Vector3d y = 0.5*(v0 + v1);
     // Just midpoint
     values[0] = y[0];
     values[1] = y[1];
+    values[2] = y[2];
   }
 
   std::shared_ptr<dolfin::Mesh> mesh;
@@ -293,6 +294,9 @@ def CellCircumcenter(mesh, codes=codes):
     
     gdim = mesh.geometry().dim()
     tdim = mesh.topology().dim()
+    # Just midpoint
+    if gdim == 1:
+        return CellCentroid(mesh)
     
     f = CompiledExpression(getattr(compile_cpp_code(codes[(tdim, gdim)]), f'Circumcenter_{tdim}_{gdim}')(),
                            degree=0, mesh=mesh)
-- 
2.43.0


From b9677485bb77c6092169a9efbf7473e14b630acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 50/67] fix: facet centroids of line meshes

---
 xii/meshing/cell_centers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 2c0fde5..a6cbf93 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -481,12 +481,16 @@ def CentroidVector2(mesh):
 
 def FacetCentroid(mesh):
     '''[DLT]^d function'''
+    # Facets are vertices
+    if mesh.topology().dim() == 1:
+        V = df.VectorFunctionSpace(mesh, 'Lagrange', 1)
+        x = df.Expression(tuple('x[%d]' % i for i in range(mesh.geometry().dim())), degree=1)
+
+        return df.interpolate(x, V)
+
     xs = df.SpatialCoordinate(mesh)
 
-    if mesh.topology().dim() == 1:
-        V = df.FunctionSpace(mesh, 'Lagrange', 1)
-    else:
-        V = df.FunctionSpace(mesh, 'Discontinuous Lagrange Trace', 0)
+    V = df.FunctionSpace(mesh, 'Discontinuous Lagrange Trace', 0)
     v = df.TestFunction(V)
     hF = df.FacetArea(mesh)
 
@@ -499,11 +503,8 @@ def FacetCentroid(mesh):
         xi_foo.vector()[:] = xi
         xi_foos.append(xi_foo)
 
-    if mesh.topology().dim() == 1:
-        V = df.VectorFunctionSpace(mesh, 'Lagrange', 1)
-    else:
-        V = df.VectorFunctionSpace(mesh, 'Discontinuous Lagrange Trace', 0)
-        
+    V = df.VectorFunctionSpace(mesh, 'Discontinuous Lagrange Trace', 0)
+
     x = df.Function(V)
     for i, xi in enumerate(xi_foos):
         df.assign(x.sub(i), xi)
-- 
2.43.0


From ada58acbd587dd364926ea13dba79ba8ceb6df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 51/67] fix: union of more than two meshes and of meshes that
 fill holes

---
 xii/meshing/union_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 2042e07..71c3cfd 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -13,8 +13,8 @@ def union_mesh(meshes, tol=1E-12):
         return meshes[0]
     # Recurse
     if num_meshes > 2:
-        return union_mesh([union_mesh(meshes[:num_meshes/2+1]),
-                           union_mesh(meshes[num_meshes/2+1:])])
+        return union_mesh([union_mesh(meshes[:num_meshes//2+1], tol),
+                           union_mesh(meshes[num_meshes//2+1:], tol)], tol)
 
     gdim, = set(m.geometry().dim() for m in meshes)
     tdim, = set(m.topology().dim() for m in meshes)
@@ -34,7 +34,7 @@ def union_mesh(meshes, tol=1E-12):
 
     x1 = x1[bdry_vertices1]
     shared_vertices = {}
-    while bdry_vertices0:
+    while bdry_vertices0 and bdry_vertices1:
         i = bdry_vertices0.pop()
         x = x0[i]
         # Try to match it
-- 
2.43.0


From 4cd4255a91cf134653c90737a8466824ef748307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 52/67] fix: union does not change the leafs of its pieces

---
 xii/meshing/union_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 71c3cfd..f6e0ecc 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -73,10 +73,10 @@ def union_mesh(meshes, tol=1E-12):
     if not hasattr(mesh0, 'leafs'):
         merged_mesh.leafs = [(mesh0.id(), lg0)]
     else:
-        merged_mesh.leafs = mesh0.leafs
+        merged_mesh.leafs = list(mesh0.leafs)
         
     if not hasattr(mesh1, 'leafs'):
-        merged_mesh.leafs.append([mesh1.id(), lg1])
+        merged_mesh.leafs.append((mesh1.id(), lg1))
     else:
         for id_, map_ in mesh1.leafs:
             merged_mesh.leafs.append((id_, lg1[map_]))
-- 
2.43.0


From 14aa6cafadfe59df0d36fe323748343ea917e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 53/67] fix: line meshes with branches of one cell

---
 xii/meshing/generation.py | 2 --
 xii/meshing/line_mesh.py  | 2 --
 2 files changed, 4 deletions(-)

diff --git a/xii/meshing/generation.py b/xii/meshing/generation.py
index 8b82948..6d26b10 100644
--- a/xii/meshing/generation.py
+++ b/xii/meshing/generation.py
@@ -36,8 +36,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
diff --git a/xii/meshing/line_mesh.py b/xii/meshing/line_mesh.py
index 6350b08..dfa9061 100644
--- a/xii/meshing/line_mesh.py
+++ b/xii/meshing/line_mesh.py
@@ -36,8 +36,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
-- 
2.43.0


From d6e8ab311a2330717df26bae2a8700673a900518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 54/67] fix: line meshes whose first branch is closed

---
 xii/meshing/generation.py | 12 ++++--------
 xii/meshing/line_mesh.py  | 12 ++++--------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/xii/meshing/generation.py b/xii/meshing/generation.py
index 6d26b10..9e36dc5 100644
--- a/xii/meshing/generation.py
+++ b/xii/meshing/generation.py
@@ -4,19 +4,15 @@ import numpy as np
 
 def line_mesh(branches, tol=1E-13):
     '''1d in 2d/3d mesh made up of branches. Branch = linked vertices'''
-    it_branches = iter(branches)
-
     # In the mesh that we are building I want to put first the end nodes
     # of the branch and then the interior points of the branches as they
     # are visited.
 
-    # Endpoints; first branch is not constrained and can add coordinates
-    branch = next(it_branches)
-    ext_nodes = branch[[0, -1]]
+    # Endpoints; all but the very first one need to be checked for collisions
+    ext_nodes = branches[0][[0]]
 
-    ext_bounds = [(0, 1)]
-    # For the other ones need to check collisions
-    for branch in it_branches:
+    ext_bounds = []
+    for branch in branches:
         endpoints = branch[[0, -1]]
         
         bounds = []
diff --git a/xii/meshing/line_mesh.py b/xii/meshing/line_mesh.py
index dfa9061..eee71aa 100644
--- a/xii/meshing/line_mesh.py
+++ b/xii/meshing/line_mesh.py
@@ -4,19 +4,15 @@ import numpy as np
 
 def line_mesh(branches, tol=1E-13):
     '''1d in 2d/3d mesh made up of branches. Branch = linked vertices'''
-    it_branches = iter(branches)
-
     # In the mesh that we are building I want to put first the end nodes
     # of the branch and then the interior points of the branches as they
     # are visited.
 
-    # Endpoints; first branch is not constrained and can add coordinates
-    branch = next(it_branches)
-    ext_nodes = branch[[0, -1]]
+    # Endpoints; all but the very first one need to be checked for collisions
+    ext_nodes = branches[0][[0]]
 
-    ext_bounds = [(0, 1)]
-    # For the other ones need to check collisions
-    for branch in it_branches:
+    ext_bounds = []
+    for branch in branches:
         endpoints = branch[[0, -1]]
         
         bounds = []
-- 
2.43.0


From 92cf0cfbf4a65da274fb8386472b719eec1ad029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 55/67] fix: colors of loops without terminals

---
 xii/meshing/branching.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/xii/meshing/branching.py b/xii/meshing/branching.py
index 69dc265..cf6870b 100644
--- a/xii/meshing/branching.py
+++ b/xii/meshing/branching.py
@@ -31,9 +31,6 @@ def color_branches(mesh):
     terminals = {v: set(v2c(v)) for v in range(mesh.num_vertices()) if len(v2c(v)) != 2}
     
     cell_f = df.MeshFunction('size_t', mesh, 1, 0)
-    if not terminals:
-        cell_f.set_all(1)
-        return cell_f, [], [1]
 
     def next_vertex(c, v, c2v=c2v):
         v0, v1 = c2v(c)
@@ -46,7 +43,7 @@ def color_branches(mesh):
     values = cell_f.array()
     branch_colors, loop_colors, color = [], [], 0
 
-    exhausted = False
+    exhausted = not terminals
     while not exhausted:
         vertex = max(terminals, key=lambda v: terminals[v])
         vertex_cells = terminals[vertex]
@@ -81,6 +78,19 @@ def color_branches(mesh):
             # same way we arrived
             v0 in terminals and link_cell in terminals[v0] and terminals[v0].remove(link_cell)
 
+    # What remains are loops that are not connected to any terminal
+    for link_cell in range(mesh.num_cells()):
+        if values[link_cell]: continue
+
+        color += 1
+        loop_colors.append(color)
+
+        v0 = c2v(link_cell)[0]
+        while not values[link_cell]:
+            values[link_cell] = color
+            v0 = next_vertex(link_cell, v0)
+            link_cell = next_cell(v0, link_cell)
+
     return cell_f, branch_colors, loop_colors
 
 
-- 
2.43.0


From 351c6eab3d90d2ec6f47ca3d840d8ad0feba8a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 56/67] fix: walking vertices of a mesh

---
 xii/meshing/branching.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/branching.py b/xii/meshing/branching.py
index cf6870b..4a022e5 100644
--- a/xii/meshing/branching.py
+++ b/xii/meshing/branching.py
@@ -101,8 +101,11 @@ def walk_vertices(arg, tag=None, is_loop=False):
     if isinstance(arg, df.cpp.mesh.MeshFunctionSizet):
         mesh = arg.mesh()
         assert arg.dim() == 1
+        values = arg.array()
     else:
         mesh = arg
+        # Every cell is walked
+        values, tag = np.zeros(mesh.num_cells(), dtype='uintp'), 0
         
     assert mesh.topology().dim() == 1 and mesh.geometry().dim() > 1
     # The boring cese
@@ -111,7 +114,7 @@ def walk_vertices(arg, tag=None, is_loop=False):
     c2v = mesh.topology()(1, 0)
     _, v2c = mesh.init(0, 1), mesh.topology()(0, 1)
 
-    cells = walk_cells(arg.array(), tag=tag, c2v=c2v, v2c=v2c, is_loop=is_loop)
+    cells = walk_cells(values, tag=tag, c2v=c2v, v2c=v2c, is_loop=is_loop)
     cell, orient = next(cells)
 
     vertices = c2v(cell) if orient else reversed(c2v(cell))
-- 
2.43.0


From 176f226a5ec35229634666365198a873522e3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 57/67] fix: volume meshes from gmsh

---
 xii/meshing/gmsh_interopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/gmsh_interopt.py b/xii/meshing/gmsh_interopt.py
index cbc1aca..672f7b9 100644
--- a/xii/meshing/gmsh_interopt.py
+++ b/xii/meshing/gmsh_interopt.py
@@ -97,7 +97,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     # We only support lines, triangles and tets
     assert set(element_data.keys()) <= set((1, 2, 4))
 
-    elm_tdim = {1: 1, 2: 2, 4: 2}    
+    elm_tdim = {1: 1, 2: 2, 4: 3}    
     # The idea is first build the mesh (and cell function) and later
     # descent over entities to tag them
     cell_elm = max(list(element_data.keys()), key=lambda elm: elm_tdim[elm])  # 
@@ -124,7 +124,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     else:
         gdim = 3
 
-    cell = ufl.Cell(elm_name[cell_tdim], gdim)
+    cell = ufl.Cell(elm_name[cell_elm], gdim)
     mesh = build_mesh(mesh_vertices, cells_as_nodes, cell)
     
     entity_functions = {}
-- 
2.43.0


From aed97f41cc159f663600b86b411f89489ed8f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 58/67] fix: meshes from gmsh which do not use all nodes

---
 xii/meshing/gmsh_interopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/gmsh_interopt.py b/xii/meshing/gmsh_interopt.py
index 672f7b9..6b874d5 100644
--- a/xii/meshing/gmsh_interopt.py
+++ b/xii/meshing/gmsh_interopt.py
@@ -107,7 +107,7 @@ def mesh_from_gmsh(nodes, element_data, TOL=1E-13):
     vtx_idx = np.unique(cells_as_nodes)
     mesh_vertices = nodes[vtx_idx]  # Now we have our numbering
     # Want to make from old to new to redefine cells
-    node_map = {old: new for old, new in enumerate(vtx_idx)}
+    node_map = {old: new for new, old in enumerate(vtx_idx)}
 
     cells_as_nodes = np.fromiter((node_map[c] for c in cells_as_nodes.ravel()),
                                  dtype=cells_as_nodes.dtype).reshape(cells_as_nodes.shape)
-- 
2.43.0


From 33fa6acae27be0afee50d3d9b03ea5e47c944940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 59/67] fix: injection between meshes which are several
 refinements apart

---
 xii/assembler/injection_form.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/xii/assembler/injection_form.py b/xii/assembler/injection_form.py
index a2f504d..84ea078 100644
--- a/xii/assembler/injection_form.py
+++ b/xii/assembler/injection_form.py
@@ -1,6 +1,7 @@
 from ufl_legacy.corealg.traversal import traverse_unique_terminals
 from xii.assembler.ufl_utils import *
 import dolfin as df
+import numpy as np
 import ufl_legacy as ufl
 
 
@@ -25,6 +26,27 @@ def injection_space(V, mesh):
     return df.FunctionSpace(mesh, V.ufl_element())
 
 
+def is_parent_map(cmap, cmesh, fmesh, tol=1E-8):
+    '''Is each i-th cell of fmesh inside cmap[i]-th cell of cmesh?'''
+    if len(cmap) != fmesh.num_cells() or max(cmap) >= cmesh.num_cells():
+        return False
+
+    if fmesh.geometry().dim() != cmesh.geometry().dim():
+        return False
+    
+    x = fmesh.coordinates()[fmesh.cells()].mean(axis=1)
+    X = cmesh.coordinates()[cmesh.cells()[cmap]]
+    # Midpoints in the coordinate system of the (simplex) parent
+    dx, basis = x - X[:, 0], np.swapaxes(X[:, 1:] - X[:, :1], 1, 2)
+    coef = np.einsum('nij,nj->ni', np.linalg.pinv(basis), dx)
+    # They are in the same plane
+    size = np.linalg.norm(basis, axis=(1, 2))
+    if np.any(np.linalg.norm(np.einsum('nij,nj->ni', basis, coef) - dx, axis=1) > tol*size):
+        return False
+    
+    return np.all(coef > -tol) and np.all(coef.sum(axis=1) < 1 + tol)
+
+
 def Injection(v, fmesh, not_nested_method='interpolate'):
     '''
     Annotated function for being a injection from space on coarse mesh 
@@ -43,9 +65,13 @@ def Injection(v, fmesh, not_nested_method='interpolate'):
             try:
                 cmap = fmesh.data().array('parent_cell', fmesh.topology().dim())
                 tdim = fmesh.topology().dim()
-                # NOTE: there is no vertex map
-                fmesh.parent_entity_map = {cmesh.id(): {tdim: dict(enumerate(cmap))}}
-                has_data = True
+                # The data are about the mesh that fmesh was refined from
+                # which might not be cmesh
+                has_data = is_parent_map(cmap, cmesh, fmesh)
+                if has_data:
+                    if not hasattr(fmesh, 'parent_entity_map'): fmesh.parent_entity_map = {}
+                    # NOTE: there is no vertex map
+                    fmesh.parent_entity_map[cmesh.id()] = {tdim: dict(enumerate(cmap))}
                 
             except RuntimeError:
                 pass
-- 
2.43.0


From 842d7d531b056cc75c90f63b822fa182c8d255f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 60/67] fix: 3d-1d trace on edges of another mesh

---
 xii/assembler/average_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/average_matrix.py b/xii/assembler/average_matrix.py
index bc75c98..29da20b 100644
--- a/xii/assembler/average_matrix.py
+++ b/xii/assembler/average_matrix.py
@@ -268,7 +268,7 @@ def trace_3d1d_matrix(V, TV, reduced_mesh):
     value_size = TV.ufl_element().value_size()
 
     # We use the map to get (1d cell -> [3d edge) -> 3d cell]
-    if hasattr(reduced_mesh, 'parent_entity_map'):
+    if mesh.id() in getattr(reduced_mesh, 'parent_entity_map', {}):
         # ( )
         mapping = reduced_mesh.parent_entity_map[mesh.id()][1]
         # [ ]
-- 
2.43.0


From 2134b7111b607e3541fc8ed0a10246c307583f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 61/67] fix: uniform extension of vector and tensor functions

---
 xii/assembler/extension_matrix.py | 42 ++++++++++++++-----------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/xii/assembler/extension_matrix.py b/xii/assembler/extension_matrix.py
index 605b46b..4d6a17a 100644
--- a/xii/assembler/extension_matrix.py
+++ b/xii/assembler/extension_matrix.py
@@ -63,36 +63,32 @@ def uniform_extension_matrix(V, EV):
     gdim = V.mesh().geometry().dim()
     assert gdim == EV.mesh().geometry().dim()
     
+    V_dofs_x = V.tabulate_dof_coordinates().reshape((V.dim(), gdim))
+    EV_dofs_x = EV.tabulate_dof_coordinates().reshape((EV.dim(), gdim))
+
     # For Vector and Tensor elements more than 1 degree of freedom is 
-    # associated with the same geometric point. It is therefore cheaper
-    # to compute the mapping based only on the scalar/one subspace considerations.
+    # associated with the same geometric point and each component is 
+    # extended by itself
     is_tensor_elm = isinstance(V.ufl_element(), (df.VectorElement, df.TensorElement))
-    # Base on scalar
     if is_tensor_elm:
-        V_dofs_x = V.sub(0).collapse().tabulate_dof_coordinates().reshape((-1, gdim))
-        EV_dofs_x = EV.sub(0).collapse().tabulate_dof_coordinates().reshape((-1, gdim))
+        V_dofs = [V.sub(i).dofmap().dofs() for i in range(V.num_sub_spaces())]
+        EV_dofs = [EV.sub(i).dofmap().dofs() for i in range(EV.num_sub_spaces())]
     # Otherwise 'scalar', (Hdiv element belong here as well)
     else:
-        V_dofs_x = V.tabulate_dof_coordinates().reshape((V.dim(), gdim))
-        EV_dofs_x = EV.tabulate_dof_coordinates().reshape((EV.dim(), gdim))
-        
-    # Compute distance from every EV dof(row) to every V dof(column)
-    lookup = cdist(EV_dofs_x, V_dofs_x)
-    # Make sure the two domains do not intersect
-    assert np.linalg.norm(lookup, np.inf) > 0
-
-    # Now get the closest dof to E
-    columns = np.argmin(lookup, axis=1)
-    # Every scalar can be used used to set all the components
-    if is_tensor_elm:
-        shift = V.dim()/len(V_dofs_x)
-        component_idx = np.arange(shift)
-        # shift*dof + components
-        columns = (shift*np.array([columns]).T + component_idx).flatten()
+        V_dofs, EV_dofs = [np.arange(V.dim())], [np.arange(EV.dim())]
+
+    columns = np.zeros(EV.dim(), dtype='int32')
+    for V_idx, EV_idx in zip(V_dofs, EV_dofs):
+        # Compute distance from every EV dof(row) to every V dof(column)
+        lookup = cdist(EV_dofs_x[EV_idx], V_dofs_x[V_idx])
+        # Make sure the two domains do not intersect
+        assert np.linalg.norm(lookup, np.inf) > 0
+        # Now get the closest dof to E
+        columns[EV_idx] = np.asarray(V_idx)[np.argmin(lookup, axis=1)]
 
     # As csr (1 col per row)
-    values = np.ones_like(columns)
-    rows = np.arange(EV.dim()+1)
+    values = np.ones(EV.dim())
+    rows = np.arange(EV.dim()+1, dtype='int32')
 
     E = csr_matrix((values, columns, rows), shape=(EV.dim(), V.dim()))
 
-- 
2.43.0


From 6237f4299da28912d8fe14fc5383e818c50374a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 62/67] fix: cached extensions are for the spaces they were
 computed with

---
 xii/assembler/extension_matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xii/assembler/extension_matrix.py b/xii/assembler/extension_matrix.py
index 4d6a17a..5c5ecde 100644
--- a/xii/assembler/extension_matrix.py
+++ b/xii/assembler/extension_matrix.py
@@ -1,4 +1,5 @@
 from xii.assembler.trace_form import Trace
+from xii.assembler.ufl_utils import space_key
 import xii.assembler.xii_assembly 
 from xii.linalg.bc_apply import apply_bc
 from xii.linalg.fe_space_op import FESpaceOperator
@@ -16,8 +17,8 @@ def memoize_ext(ext_mat):
     '''Cached extension mapping'''
     cache = {}
     def cached_ext_mat(V, TV, extended_mesh, data):
-        key = ((V.ufl_element(), V.mesh().id()),
-               (TV.ufl_element(), TV.mesh().id()),
+        key = (space_key(V),
+               space_key(TV),
                data['type'])
 
         if data['data'] is not None:
-- 
2.43.0


From 2c7ee7dd327ba11290f9cce966b0cf9d51e28394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 63/67] fix: reduced spaces of vector and tensor functions of
 any shape

---
 xii/assembler/average_form.py         | 16 +++-------------
 xii/assembler/extension_form.py       | 15 ++-------------
 xii/assembler/trace_form.py           | 16 ++--------------
 xii/assembler/transpose_trace_form.py | 16 ++--------------
 xii/assembler/ufl_utils.py            | 12 ++++++++++++
 5 files changed, 21 insertions(+), 54 deletions(-)

diff --git a/xii/assembler/average_form.py b/xii/assembler/average_form.py
index 9476555..7dfa73f 100644
--- a/xii/assembler/average_form.py
+++ b/xii/assembler/average_form.py
@@ -37,19 +37,9 @@ def average_space(V, mesh):
     # the cell it is natural to represent everything in DG
     family = 'Discontinuous Lagrange'
 
-    # There is an issue here where e.g. Hdiv are not scalars
-    elmtype_map = {0: df.FiniteElement,
-                   1: df.VectorElement,
-                   2: df.TensorElement}
-    # So let's check first for elements where scalar = FiniteElm
-    # vector == VectorElm etc
-    rank = len(elm.value_shape())
-    if elmtype_map[rank] == type(elm):
-        elm = type(elm)  # I.e. vector element stays verctor element
-    else:
-        elm = elmtype_map[rank]
-
-    return df.FunctionSpace(mesh, elm(family, mesh.ufl_cell(), degree))
+    # There is an issue here where e.g. Hdiv are not scalars, their
+    # element is FiniteElement but we want the space from VectorElement
+    return df.FunctionSpace(mesh, component_element(elm, family, mesh.ufl_cell(), degree))
 
 
 def Average(v, line_mesh, shape):
diff --git a/xii/assembler/extension_form.py b/xii/assembler/extension_form.py
index 6c801fb..b079fd0 100644
--- a/xii/assembler/extension_form.py
+++ b/xii/assembler/extension_form.py
@@ -50,20 +50,9 @@ def extension_element(elm):
     degree = elm.degree()  # Preserve degree
     cell = extension_cell(elm)
 
-    # How to construct:
     # There is an issue here where e.g. Hdiv are not scalars, their
-    # element is FiniteElement but we want trace space from VectorElement
-    elmtype_map = {0: df.FiniteElement,
-                   1: df.VectorElement,
-                   2: df.TensorElement}
-    # So let's check first for elements where scalar = FiniteElm, vector == VectorElm 
-    rank = len(elm.value_shape())
-    if elmtype_map[rank] == type(elm):
-        elm = type(elm)  # i.e. vector element stays vector element
-    else:
-        elm = elmtype_map[rank]
-
-    return elm(family, cell, degree)
+    # element is FiniteElement but we want the space from VectorElement
+    return component_element(elm, family, cell, degree)
 
 
 def extension_space(V, mesh):
diff --git a/xii/assembler/trace_form.py b/xii/assembler/trace_form.py
index 91a5683..9478949 100644
--- a/xii/assembler/trace_form.py
+++ b/xii/assembler/trace_form.py
@@ -54,21 +54,9 @@ def trace_element(elm):
     degree = elm.degree()  # Preserve degree
     cell = trace_cell(elm)
 
-    # How to construct:
     # There is an issue here where e.g. Hdiv are not scalars, their
-    # element is FiniteElement but we want trace space from VectorElement
-    elmtype_map = {0: df.FiniteElement,
-                   1: df.VectorElement,
-                   2: df.TensorElement}
-    # So let's check first for elements where scalar = FiniteElm, vector == VectorElm 
-    rank = len(elm.value_shape())
-    if elmtype_map[rank] == type(elm):
-        elm = type(elm)  # i.e. vector element stays vector element
-    else:
-        elm = elmtype_map[rank]
-
-
-    return elm(family, cell, degree)
+    # element is FiniteElement but we want the space from VectorElement
+    return component_element(elm, family, cell, degree)
 
 
 def trace_space(V, mesh):
diff --git a/xii/assembler/transpose_trace_form.py b/xii/assembler/transpose_trace_form.py
index 4cdc2f2..55126ed 100644
--- a/xii/assembler/transpose_trace_form.py
+++ b/xii/assembler/transpose_trace_form.py
@@ -42,21 +42,9 @@ def transpose_trace_element(elm):
     degree = elm.degree()  # Preserve degree
     cell = transpose_trace_cell(elm)
 
-    # How to construct:
     # There is an issue here where e.g. Hdiv are not scalars, their
-    # element is FiniteElement but we want trace space from VectorElement
-    elmtype_map = {0: df.FiniteElement,
-                   1: df.VectorElement,
-                   2: df.TensorElement}
-    # So let's check first for elements where scalar = FiniteElm, vector == VectorElm 
-    rank = len(elm.value_shape())
-    if elmtype_map[rank] == type(elm):
-        elm = type(elm)  # i.e. vector element stays vector element
-    else:
-        elm = elmtype_map[rank]
-
-
-    return elm(family, cell, degree)
+    # element is FiniteElement but we want the space from VectorElement
+    return component_element(elm, family, cell, degree)
 
 
 def transpose_trace_space(V, mesh):
diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index c396b4f..b09603b 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -157,6 +157,18 @@ def reconstruct(f):
     return f
 
 
+def component_element(elm, family, cell, degree):
+    '''Element with all the components in family whose functions are valued like those of elm'''
+    shape = elm.value_shape()
+    if len(shape) == 0:
+        return df.FiniteElement(family, cell, degree)
+
+    if len(shape) == 1:
+        return df.VectorElement(family, cell, degree, dim=shape[0])
+
+    return df.TensorElement(family, cell, degree, shape=shape)
+
+
 def space_key(V):
     '''
     Spaces with equal keys have the same algebraic representation. Element
-- 
2.43.0


From aedad86973682454f4d1bf2894cd8faa8eacd543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 64/67] fix: sums of preconditioners in pc_nest with newer
 petsc4py

---
 xii/linalg/nest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index 6d4db10..e692b48 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -44,7 +44,9 @@ def pc_mat(pc, block):
             pc_ = PETSc.PC().create()
             A = pc_mat(pc_, op)
 
-            pc.addCompositePC(pc_.getType())
+            # NOTE: Newer petsc4py adds (types of) subpreconditioners by another name
+            add_type = getattr(pc, 'addCompositePCType', None) or pc.addCompositePC
+            add_type(pc_.getType())
 
             pc_sub = pc.getCompositePC(sub)            
             # Make it
-- 
2.43.0


From 964062352295187e6d025d9d99a717f1685573df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 65/67] fix: corner of the rim of a square given as list or
 tuple

---
 xii/assembler/average_shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/assembler/average_shape.py b/xii/assembler/average_shape.py
index 764ae8c..3962f31 100644
--- a/xii/assembler/average_shape.py
+++ b/xii/assembler/average_shape.py
@@ -90,7 +90,7 @@ class SquareRim(BoundingSurface):
     def __init__(self, P, degree):
         if isinstance(P, (tuple, list, np.ndarray)):
             assert all(is_number(Pi) for Pi in P)
-            self.P = lambda x0, p=P: p
+            self.P = lambda x0, p=np.array(P): p
         else:
             self.P = P
 
-- 
2.43.0


From 3ae9d21db47e7e4d01c5a13c0ee3dfe6f273d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 66/67] fix: orientation of cells of oriented surfaces in
 evaluation of basis functions

---
 xii/assembler/fem_eval.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xii/assembler/fem_eval.py b/xii/assembler/fem_eval.py
index f77e36f..23f4ef3 100644
--- a/xii/assembler/fem_eval.py
+++ b/xii/assembler/fem_eval.py
@@ -2,9 +2,17 @@ from dolfin import Cell, UserExpression, Function
 import numpy as np
 
 
-def cell_orientation(is_1d_in_3d):
-    '''A line mesh in 3d cannot be oriented - fall back to 0'''
-    return lambda cell: cell.orientation() if not is_1d_in_3d else 0
+def cell_orientation(mesh):
+    '''Orientation of mesh cells (as seen by assembly if mesh has been oriented)'''
+    # A line mesh in 3d cannot be oriented - fall back to 0
+    if mesh.topology().dim() == 1 and mesh.geometry().dim() == 3:
+        return lambda cell: 0
+
+    orientations = mesh.cell_orientations()
+    if orientations:
+        return lambda cell: orientations[cell.index()]
+
+    return lambda cell: cell.orientation()
 
 
 class DegreeOfFreedom(object):
@@ -13,8 +21,7 @@ class DegreeOfFreedom(object):
         self.elm = V.element()
         self.mesh = V.mesh()
 
-        is_1d_in_3d = self.mesh.topology().dim() == 1 and self.mesh.geometry().dim() == 3
-        self.orient_cell = cell_orientation(is_1d_in_3d)
+        self.orient_cell = cell_orientation(self.mesh)
 
         # Allocs
         self.__cell = Cell(self.mesh, 0)
@@ -65,8 +72,7 @@ class FEBasisFunction(UserExpression):
         self.elm = V.element()
         self.mesh = V.mesh()
 
-        is_1d_in_3d = self.mesh.topology().dim() == 1 and self.mesh.geometry().dim() == 3
-        self.orient_cell = cell_orientation(is_1d_in_3d)
+        self.orient_cell = cell_orientation(self.mesh)
 
         # Allocs
         self.__cell = Cell(self.mesh, 0)
-- 
2.43.0


From ded8f5e056971d6f952b9933a9234092e320ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 67/67] fix: averages over shapes whose size is given by a
 function that changed

---
 xii/assembler/average_matrix.py      | 12 ++++++++++++
 xii/assembler/flux_average_matrix.py |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/xii/assembler/average_matrix.py b/xii/assembler/average_matrix.py
index 29da20b..9747742 100644
--- a/xii/assembler/average_matrix.py
+++ b/xii/assembler/average_matrix.py
@@ -10,6 +10,16 @@ import numpy as np
 import tqdm
 
 
+def shape_size(shape, TV):
+    '''Present size of the shape at points of TV (if given by a function)'''
+    size = getattr(shape, 'radius', getattr(shape, 'P', None))
+    if not callable(size):
+        return ()
+
+    points = TV.tabulate_dof_coordinates().reshape((TV.dim(), -1))
+    return (hash(np.array([size(x) for x in points]).tobytes()), )
+
+
 def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
@@ -17,6 +27,8 @@ def memoize_average(average_mat):
         key = (space_key(V),
                space_key(TV),
                data['shape'])
+        # The size of the shape can change
+        key = key + shape_size(data['shape'], TV)
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
diff --git a/xii/assembler/flux_average_matrix.py b/xii/assembler/flux_average_matrix.py
index 66d95ec..b897f47 100644
--- a/xii/assembler/flux_average_matrix.py
+++ b/xii/assembler/flux_average_matrix.py
@@ -1,6 +1,7 @@
 from xii.linalg.matrix_utils import petsc_serial_matrix, is_number
 from xii.assembler.ufl_utils import space_key
 from xii.assembler.average_form import average_cell, average_space
+from xii.assembler.average_matrix import shape_size
 
 from numpy.polynomial.legendre import leggauss
 from dolfin import PETScMatrix, cells, Point, Cell, Function
@@ -17,6 +18,8 @@ def memoize_average(average_mat):
         key = (space_key(V),
                space_key(TV),
                data['shape'])
+        # The size of the shape can change
+        key = key + shape_size(data['shape'], TV)
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
-- 
2.43.0

