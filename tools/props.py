"""The properties, in one place. `tools/emit.py` writes properties.jsonl and MANIFEST.json from it
(a property is claimed when rv/checks/<id>.py exists)."""
A = 'xii/assembler/'
L = 'xii/linalg/'
M = 'xii/meshing/'


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                why_tests_cant=why, anchors={'files': files, 'mechanism': [
                    {'name': n, 'where': w} for n, w in mech]}), technique, note


PROPS = [
P('P01', 'Conforming trace is the restriction of the function to the manifold',
  'Assembling a form with the trace of a function on an embedded mesh whose cells are facets (or 3d edges) of the function\'s mesh '
  'gives exactly the integral of the function restricted to that manifold, for trial, test and coefficient arguments alike, and '
  'the trial- and test-side matrices are transposes of each other. '
  'Boundary/interior location, numbering of the mesh, element family with well defined trace, scalar/vector/tensor value and the selected marker tags do not matter; '
  'cells outside the selected tags contribute nothing.',
  ['inputs', 'configurations'],
  'all meshes (2d, 3d), all facet/edge markings and tag subsets, all finite element spaces whose functions are single valued on the manifold, all coefficient vectors',
  'the tests project a handful of fixed polynomials on uniform unit square/cube meshes with axis aligned interfaces; they never permute numberings, mix tags, or look at arbitrary coefficient vectors',
  [A+'trace_matrix.py', A+'trace_form.py', A+'trace_assembly.py', A+'reduced_assembler.py', A+'fem_eval.py', M+'embedded_mesh.py'],
  [('trace matrix without restriction', A+'trace_matrix.py: trace_mat_no_restrict'), ('trace space', A+'trace_assembly.py/trace_form.py: trace_space'),
   ('form rewriting', A+'reduced_assembler.py: ReducedFormAssembler.assemble')],
  'runtime monitoring: oracle on every assembled trace form, cellwise moments against pointwise evaluation of the function at the manifold by independent quadrature',
  'randomised meshes/markings/spaces; not exhaustive'),
P('P02', 'Sided traces (+, -, avg, jump) follow the given normal',
  'For a discontinuous function and a given manifold normal, the plus trace takes its values from the cell into which the normal points, '
  'the minus trace from the other cell, the average is half of their sum and the jump is plus minus minus; flipping the normal swaps plus and minus and negates the jump. '
  'On facets that are on the boundary of the mesh the average and the jump are the one-sided value; one such sided reduction of a given argument per integrand is supported, separate integrals combine freely.',
  ['inputs', 'configurations'],
  'all interior/boundary facet manifolds in 2d and 3d, all cellwise constant orientations of the normal, all (dis)continuous element families, all coefficient vectors',
  'the only sided test is one interface with one normal; avg and jump were not run at all',
  [A+'trace_matrix.py', A+'trace_form.py', A+'ufl_utils.py'],
  [('cell picking by normal', A+'trace_matrix.py: trace_mat_one_restrict'), ('two sided rows', A+'trace_matrix.py: trace_mat_two_restrict')],
  'runtime monitoring: cellwise moments of the assembled forms against one-sided pointwise evaluation, relational monitors (flip the normal, avg/jump from +/-)',
  'randomised normals, meshes and spaces'),
P('P03', 'Trace on manifolds that do not (fully) match the mesh',
  'A trace onto a manifold mesh that is not made of facets of the function\'s mesh equals the interpolation of the function onto the manifold\'s trace space, the rows of degrees of freedom that lie outside the mesh being zero. '
  'A manifold extracted from one mesh can be traced from another mesh sharing (some of) its facets or having unrelated vertices there, tag by tag and in any order, with the values those functions have on the manifold.',
  ['inputs', 'histories'],
  'all placements of a manifold relative to the mesh, including partly outside; all sequences of traces of several meshes and tags onto the same manifold',
  'the tests use one non-matching line and never call traces for several tags/meshes in different orders',
  [A+'nonconforming_trace_matrix.py', A+'trace_matrix.py', M+'embedded_mesh.py'],
  [('fallback', A+'trace_matrix.py: trace_mat_no_restrict'), ('interpolation rows', A+'nonconforming_trace_matrix.py: nonconforming_trace_mat'),
   ('maps per parent mesh', A+'trace_matrix.py: get_entity_map'), ('embedding map', M+'embedded_mesh.py: build_embedding_map')],
  'runtime monitoring: cellwise moments against brute-force point location and evaluation; multi-step histories of partial traces',
  'randomised manifolds and histories'),
P('P04', 'Averages and fluxes over transverse shapes equal their integrals',
  'The average of a 3d function on a curve mesh equals, at the trace space nodes, the mean over the transverse shape (circle, disk, square, square rim, point cloud given by the user, or the point itself) '
  'placed in the plane orthogonal to the curve cell, exactly for functions the stated quadrature degree resolves; the flux average is the same with the gradient, and the measure function of the shape has the value of its true measure. '
  'The published disk rules integrate polynomials up to their degree.',
  ['inputs', 'configurations'],
  'all curves (any direction of the cells), all shape parameters constant or varying along the curve, all function spaces of the 3d domain, all quadrature degrees, all coefficient vectors',
  'the tests check one straight axis aligned curve with fixed radii and low degree polynomials; a rule or frame wrong for another direction, size or degree passes them',
  [A+'average_matrix.py', A+'average_shape.py', A+'average_form.py', A+'disk_quadrature.py', A+'flux_average_matrix.py', A+'flux_average_form.py'],
  [('average operator', A+'average_matrix.py: average_matrix'), ('shapes', A+'average_shape.py'), ('disk rules', A+'disk_quadrature.py: disk_quadrature'),
   ('measures', A+'average_matrix.py: MeasureFunction'), ('flux', A+'flux_average_matrix.py')],
  'runtime monitoring: nodal values of the reduced operators (probed through assembled forms) against independent dense quadrature over the shape with brute force point location; moment checks on the rules',
  'randomised curves, shapes and functions; disk rules of all degrees are enumerated'),
P('P05', 'Point, patch, surface and mean reductions compute what they name',
  'PointTrace and GradientPointTrace give the value/directional derivative at the given point (vertex and cell chosen by the user), Mean the weighted integral over its measure, SurfaceMean the area normalised integral, '
  'CellPatchAverage the average of the (coloured) patch of cells, each as an exact linear functional of the coefficients for trial, test and coefficient arguments; '
  'forms mixing a reduced argument with the unreduced one, or several reductions at the same point, assemble to the sum of their parts.',
  ['inputs', 'histories'],
  'all meshes, element families, points, directions, weights, measures/tags and coefficient vectors; sequences of reductions sharing caches',
  'the tests check a few values for one space each; wrong dof or cell selection, cache confusion and aliasing need other inputs and repeated use to show',
  [A+'point_trace_matrix.py', A+'gradient_point_trace_matrix.py', A+'mean_matrix.py', A+'surface_mean_matrix.py', A+'patch_average_matrix.py', A+'ufl_utils.py'],
  [('point functional', A+'point_trace_matrix.py'), ('gradient functional', A+'gradient_point_trace_matrix.py'), ('mean', A+'mean_matrix.py'),
   ('surface mean', A+'surface_mean_matrix.py'), ('patches', A+'patch_average_matrix.py')],
  'runtime monitoring: probes of the assembled forms by coefficient vectors against independent pointwise evaluation and quadrature; histories of different reductions of the same function',
  'randomised'),
P('P06', 'Restriction, injection and transposed trace keep the function',
  'Restriction of a function to a subdomain mesh (or to the overlap of two of them) is the same function on the cells of that mesh; Injection from a coarse mesh to a mesh refined from it is the same function on the finer cells, '
  'for either method, and on an unrelated mesh it is the interpolant (there the method with lookup of the parent cells is refused); TransposeTrace of a multiplier is the dual of Trace on the traced facets; the interpolation matrix maps the coefficients of a function to those of its interpolant. '
  'Trial, test and coefficient arguments agree.',
  ['inputs', 'histories'],
  'all cell markings and refinements (uniform, local, centroid, repeated), all element families whose functions are represented exactly, all coefficient vectors, any order of methods',
  'the tests check one or two polynomials in P1/P2 on uniform meshes; a wrong child-parent or cell map on another marking or element is invisible to them',
  [A+'restriction_matrix.py', A+'restriction_form.py', A+'injection_matrix.py', A+'injection_form.py', A+'transpose_trace_matrix.py', A+'transpose_trace_form.py', A+'interpolation_matrix.py', M+'subdomain_mesh.py', M+'refinement.py'],
  [('restriction', A+'restriction_matrix.py: restriction_matrix'), ('injection', A+'injection_matrix.py: injection_matrix'), ('extension', A+'transpose_trace_matrix.py: transpose_trace_mat'),
   ('interpolation', A+'interpolation_matrix.py: interpolation_mat'), ('overlap maps', M+'subdomain_mesh.py: OverlapMesh')],
  'runtime monitoring: cellwise moments of the assembled forms against evaluation in the brute-force located parent cell; duality and mass identities',
  'randomised'),
P('P07', 'Multi-domain forms assemble like the plain forms of the reduced functions',
  'ii_assemble of any form - sums and scalings of integrals over several meshes and subdomain measures, with trial, test and coefficient arguments behind Trace, Restriction, Injection, Average or Mean in any slot, multiplied by other coefficients - '
  'has the value of the plain integral with each reduced argument replaced by its reduction; so matrices, vectors and numbers are linear in every argument, and list/nested-list inputs give the block tensors of the separate forms with zero blocks sized by their row and column.',
  ['inputs'],
  'all integrands built from the reductions, all coefficient and argument vectors, all block structures',
  'tests contain about ten fixed forms; substitution order, integrals that share a reduction, several reductions in one integrand or a reduction of a coefficient are combinatorial',
  [A+'reduced_assembler.py', A+'ufl_utils.py', A+'trace_assembly.py', A+'average_assembly.py', A+'restriction_assembly.py', A+'injection_assembly.py'],
  [('dispatch and composition', A+'reduced_assembler.py: ReducedFormAssembler'), ('replacement', A+'ufl_utils.py: replace')],
  'runtime monitoring: random forms assembled by the real code, the result contracted with random vectors and compared with the plain dolfin integral of independently reduced functions',
  'randomised'),
P('P08', 'Assembly sees the present state of its inputs and leaves them unchanged',
  'The result of ii_assemble depends only on the present values of meshes, spaces, coefficients, normals, constants, weights, tags, averaging shapes and patch functions, never on what was assembled (or existed and was freed) before; repeated assembly gives equal results, '
  'results belong to the caller (overwriting one changes no later one), and assembling changes no mesh, space, coefficient or marker of the user.',
  ['histories', 'inputs'],
  'all histories of assemblies and in-place mutations, rebuilt objects with reused addresses, spaces of equal signature but different numbering',
  'each test assembles once in a fresh process; stale caches and mutated inputs need a history',
  [A+'trace_matrix.py', A+'average_matrix.py', A+'injection_matrix.py', A+'restriction_matrix.py', A+'mean_matrix.py', A+'point_trace_matrix.py', A+'patch_average_matrix.py', A+'surface_mean_matrix.py', A+'interpolation_matrix.py', A+'ufl_utils.py'],
  [('cache keys', A+'*_matrix.py: memoize_*'), ('state digests', A+'ufl_utils.py: space_key, data_key'), ('copies', A+'ufl_utils.py: reconstruct')],
  'runtime monitoring: random histories of mutations and assemblies; every assembled object is compared with a reference from the present state, bitwise with its repetition, and inputs are digested before and after',
  'randomised'),
P('P09', 'Conversion of lazy block expressions gives the matrix of the expression',
  'ii_convert, ii_collapse and monolithic turn any expression of matrices, diagonal operators and numbers built with +, -, *, transposition, scaling and zero terms, and any block matrix or vector of such expressions (zeros and multiples of identity as numbers, '
  'sizes inferred), into the matrix or vector with the same entries and action as the dense evaluation; inputs are left unchanged, sizes are reported correctly, a number that cannot be a multiple of identity is refused.',
  ['inputs'],
  'all expression trees, shared sub-expressions, shapes, sparsity patterns, and block structures',
  'no test converts more than a product of two matrices; shape, order and transposition mistakes need deep and rectangular expressions',
  [L+'convert.py', L+'collapse_iter.py', L+'matrix_utils.py'],
  [('recursive collapse', L+'convert.py: convert, collapse'), ('graph collapse', L+'collapse_iter.py: monolithic'), ('sizes', L+'convert.py: get_dims, bmat_sizes')],
  'runtime monitoring: random lazy expressions converted by the real code, compared with dense arithmetic computed alongside; inputs digested before and after',
  'randomised'),
P('P10', 'Boundary conditions eliminate the constrained dofs of block systems',
  'apply_bc returns the system with rows (and with symmetric=True columns) of all constrained dofs eliminated: diag_val on their diagonal, diag_val times the boundary value in the right-hand side, the rest of the right-hand side reduced by the eliminated columns; for every format of the conditions '
  '(list, dictionary, single condition or matrix, none). Inputs are unchanged, the returned apply_b does the same to any later right-hand side with the present boundary values, as_block splits monolithic objects exactly.',
  ['inputs', 'histories'],
  'all block systems (zero, number and matrix blocks), sets of conditions, overlaps, values changing in time',
  'the tests solve a problem with one condition format; a wrong offset, sign or stale value shows only in some block structure or at a later time step',
  [L+'bc_apply.py', L+'convert.py'],
  [('elimination', L+'bc_apply.py: apply_bc'), ('time dependent values', L+'bc_apply.py: apply_bc.apply_b'), ('splitting', L+'bc_apply.py: as_block')],
  'runtime monitoring: random systems and condition sets through the real code, compared with dense elimination; apply_b driven through histories of changed values; inputs digested',
  'randomised'),
P('P11', 'Block operators act as the dense operators they stand for',
  'The reduction, regrouping (also with offsets), vectorised, block diagonal, random and identity-like operators and the block helpers of xii.linalg.block_utils and list_utils act on block vectors as the dense matrix they stand for, their transposed action is the transposed matrix, '
  'composition and conversion to a matrix agree with the action, and vectors they return stay valid: no returned block refers to memory of a vector that has been freed or is changed by later applications.',
  ['inputs', 'histories'],
  'all block structures, groupings/offsets, and histories of applying an operator while earlier results are kept or freed',
  'the tests apply an operator once to a fixed vector; swapped offsets with equal sizes and dangling memory do not show',
  [L+'block_utils.py', L+'list_utils.py', L+'hsmg_utils.py'],
  [('regrouping', L+'block_utils.py: ReductionOperator, RegroupOperator, RearangeOperator'), ('vectorisation', L+'block_utils.py: VectorizedOperator'), ('helpers', L+'block_utils.py')],
  'runtime monitoring: random block structures through the operators, compared with dense algebra; lifetime monitor keeps results while owners are freed and memory is reused and re-reads them',
  'randomised'),
P('P12', 'PETSc views of block systems and ii_Function keep entries, order and wiring',
  'The nest of a block matrix/vector, the shell operator and preconditioner made of block operators, and the solver wrappers act as the block objects do (zero, number and non-assembled blocks, nullspaces and local-to-global maps included), a field split set up from a block preconditioner applies that preconditioner (sums and groups of blocks too), solving through them gives the solution of the dense system; '
  'the global vector of an ii_Function is the concatenation of the vectors of its components, wired both ways through construction, interpolation, assignment and solves.',
  ['inputs', 'histories'],
  'all block systems and function collections, all sequences of writes through either view',
  'tests solve one system and read the result; lost wiring, wrong order or a dropped identity block needs a particular structure or history',
  [L+'nest.py', L+'function.py', L+'block_utils.py', L+'krylov_api.py'],
  [('nest', L+'nest.py: nest'), ('wiring', L+'function.py: ii_Function'), ('PETSc shell', L+'block_utils.py: ii_PETScOperator, ii_PETScPreconditioner')],
  'runtime monitoring: random systems through nest/PETSc shells/KSP compared with dense algebra; histories of writes to ii_Function checked at every step in both directions',
  'randomised'),
P('P13', 'Null space handling is the exact orthogonal projection',
  'BlockNullspace keeps an orthonormal basis of the span of the vectors (coefficients, numbers, constants, tuples) added to it, refuses dependent ones and orthogonalises any vector against the span; Projector, L20_inner_product and L20_riesz_map for given functions are the L2 orthogonal projection, '
  'the projected mass operator and its inverse on functionals vanishing on the null space, both as actions and as matrices.',
  ['inputs', 'histories'],
  'all spaces, sets of functions (with equal Gram eigenvalues too) and sequences of additions',
  'no test compares with the projection; wrong normalisation or dependent vectors are only seen for several functions in several blocks',
  [L+'block_nullspace.py', L+'sherman_morrison.py'],
  [('block basis', L+'block_nullspace.py: BlockNullspace.add_vector'), ('projection', L+'sherman_morrison.py: Projector'), ('Riesz map', L+'sherman_morrison.py: L20_riesz_map')],
  'runtime monitoring: histories of additions and random functions through the real operators, compared with QR and dense projection',
  'randomised'),
P('P14', 'Krylov front ends solve the block system; collapsed operators match the action',
  'scipy_solve, pyamg_solve and cbc_solve return a block solution of the given block system with or without preconditioner and initial guess, put it into x0, report true residuals and leave the right-hand side alone; ScipyLinOp of any (rectangular) block matrix has its shape and action; '
  'collapsing a user-defined FESpaceOperator gives the matrix of its action, also when the operator recycles vectors.',
  ['inputs', 'histories'],
  'all block systems, methods, preconditioners, initial guesses; all histories of the vector pool',
  'not run by the tests for more than one system and method',
  [L+'krylov_api.py', L+'fe_space_op.py', L+'convert.py'],
  [('front ends', L+'krylov_api.py: scipy_solve, pyamg_solve, cbc_solve'), ('block action', L+'krylov_api.py: ScipyLinOp'), ('collapse', L+'fe_space_op.py: FESpaceOperator.collapse')],
  'runtime monitoring: random well conditioned systems through every front end, residual and solution oracles against dense algebra',
  'randomised'),
P('P15', 'Block forms place integrals by their arguments; adjoints transpose',
  'Adding any sum of integrals to a block form puts each integral in the block of its test and trial spaces, so the assembled block form is the block matrix (vector) of the sums; sums of block forms, permutations (by index or by space), triangularity and arity tests follow, '
  'a block of other arguments is refused. form_adjoint of any bilinear form, with any reduction operator and with arguments from equal or different spaces, assembles to the transposed matrix, and make_selfadjoint completes a triangular form to a symmetric one.',
  ['inputs'],
  'all collections of spaces, reductions and integrals, in all orders and groupings',
  'not tested beyond demos; an adjoint that loses the mark of an operator or mixes arguments of equal spaces only shows for particular forms',
  [A+'block_form.py', A+'ufl_utils.py', A+'xii_assembly.py'],
  [('placement', A+'block_form.py: _block_form.add'), ('adjoint', A+'block_form.py: form_adjoint'), ('permutation', A+'block_form.py: permute')],
  'runtime monitoring: random block forms over every reduction operator assembled by the real code, against the integrals assembled one by one and dense transposition',
  'randomised'),
P('P16', 'Derivatives of forms with reduced functions are their Gateaux derivatives',
  'ii_derivative(L, f) of a residual that depends on f directly and through any reductions of it (several in one integrand too), on other functions, constants and expressions, with native or reduced test function, assembles at any state to the derivative of the assembled residual; '
  'block_jacobian collects these for block residuals; the state is left alone.',
  ['inputs', 'histories'],
  'all smooth residuals, reduction operators and states',
  'no test runs the module; forgetting one dependence on the state still gives a plausible matrix',
  ['xii/nonlin/jacobian.py', A+'ufl_utils.py'],
  [('chain rule', 'xii/nonlin/jacobian.py: ii_derivative'), ('blocks', 'xii/nonlin/jacobian.py: block_jacobian')],
  'runtime monitoring: random nonlinear residuals, assembled derivative against extrapolated central differences of the assembled residual, at several states',
  'randomised'),
P('P17', 'Embedded meshes are the marked entities; maps and markers follow them',
  'EmbeddedMesh(f, markers) has one cell for every entity marked by one of the markers (given as number, list, tuple or set) and its vertices, nothing else; parent_entity_map takes each vertex and cell to the entity it came from (nested embeddings too), marking_function keeps the marker of the entity, the parent is not changed. '
  'compute_embedding and build_embedding_map find the same maps for another mesh that shares the entities, for all or only the tagged ones; translate_markers and transfer_markers put on each entity of the child the marker of the entity of the parent it is, and on nothing else.',
  ['inputs', 'histories'],
  'all meshes, dimensions, markings, marker collections and orders of building embeddings',
  'the tests use unit squares/cubes with one marker and never look at vertex maps; a wrong map still assembles',
  [M+'embedded_mesh.py', M+'transfer_markers.py', M+'make_mesh_cpp.py'],
  [('construction', M+'embedded_mesh.py: EmbeddedMesh.__init__'), ('second parent', M+'embedded_mesh.py: compute_embedding, build_embedding_map'), ('markers', M+'embedded_mesh.py: translate_markers; transfer_markers.py')],
  'runtime monitoring: random markings, nestings and renumbered siblings through the real code, every map entry and marker compared with the bit-exact coordinates of the vertices',
  'randomised'),
P('P18', 'Normals and tangents have unit length, right direction and right side',
  'OuterNormal/InnerNormal on a manifold are unit normals of its cells on the side asked for: away from the centre, from a point, along a vector field, out of the mesh on one side, from the higher to the lower marker (outward on the boundary), by the FacetNormal; OrientedFacetNormal gives the same on all facets of a mesh. '
  'TangentCurve is a unit tangent that runs on through every vertex joining two cells, from the given root on open curves and around loops; winding numbers tell inside from outside and NormalCurve points to the side of the given point, whatever the numbering.',
  ['inputs'],
  'all manifolds and curves (several pieces, loops, branching), numberings and vertex orders in cells, sources of the orientation',
  'the tests check the unit square and cube from the centre; sign errors need other orientations of cells',
  [M+'embedded_mesh.py', M+'dg_utils.py', M+'branching.py'],
  [('normals', M+'embedded_mesh.py: OuterNormal, InnerNormal'), ('facet normals', M+'dg_utils.py: orient_facet_normal'), ('curves', M+'embedded_mesh.py: TangentCurve, wind_number, NormalCurve')],
  'runtime monitoring: random manifolds and curves with shuffled numbering through the real code, each vector compared with numpy geometry (side of vertices, graph traversal, ray casting)',
  'randomised'),
P('P19', 'Overlap and mortar meshes carry correct maps to all their parents',
  'OverlapMesh of two subdomain meshes with one common tag consists of the cells of that tag with vertex and cell maps to both; mortar_meshes gives for each marker, in the order given, the mesh of its cells, and an interface made exactly of the facets between differently marked neighbours (of those considered), coloured by pairs, '
  'whose maps take cells to the facets of the two meshes they separate; an interface in several parts is refused unless strict is off. Restrictions to the overlap and traces to the interface through these maps give the values of the functions.',
  ['inputs'],
  'all meshes, markings, marker orders, scales of the coordinates, selections of facets',
  'the demos use two subdomains of a square; wrong cell or facet in a map is only seen for general numbering',
  [M+'subdomain_mesh.py', M+'mortar_mesh.py', A+'restriction_matrix.py'],
  [('overlap', M+'subdomain_mesh.py: OverlapMesh'), ('mortar', M+'mortar_mesh.py: mortar_meshes'), ('continuity', M+'mortar_mesh.py: is_continuous')],
  'runtime monitoring: random markings through the real code, maps compared with bit-exact coordinates, interfaces with the neighbour relation, couplings with numpy quadrature',
  'randomised'),
P('P20', 'Refinements split every cell, keep vertices and stay conforming',
  'centroid_refine, circumcenter_refine and dual_mesh give, for any simplicial mesh and number of refinements, a conforming mesh with the same boundary whose cells lie in the parent that parent_entity_map names and fill it without overlap, in the number the method prescribes; the new vertices are the centres of cells (and edges), every old vertex is kept and mapped; '
  'a centre outside its cell is refused; the coarse mesh is not changed.',
  ['inputs'],
  'all meshes (lines, surfaces, volumes), scales and numbers of refinements',
  'the tests refine unit squares once or twice; map composition and other dimensions are not covered',
  [M+'refinement.py', M+'dual_mesh.py', M+'make_mesh_cpp.py'],
  [('refinement', M+'refinement.py: inner_point_refine'), ('dual mesh', M+'dual_mesh.py: dual_mesh_triangle'), ('inside test', M+'refinement.py: point_is_inside')],
  'runtime monitoring: random meshes through the real refinement, each child and vertex compared with numpy geometry of its parent',
  'randomised'),
P('P21', 'Centres of cells and facets and distances between them are exact',
  'CellCentroid, CellCircumcenter and FacetCentroid hold in each cell or facet its centroid or circumcenter; the centre vectors and distances are those between the centres of the two cells at each interior facet and from cell to facet on the boundary, the second variants the sum of distances through the facet; is_delaunay measures the angle of these vectors with the facet normals.',
  ['inputs'],
  'all meshes in all dimensions',
  'the tests of this module need a package that is not there; only symmetric meshes are used',
  [M+'cell_centers.py'],
  [('cells', M+'cell_centers.py: CellCentroid, CellCircumcenter'), ('facets', M+'cell_centers.py: FacetCentroid'), ('distances', M+'cell_centers.py: _CenterDistance, _CenterDistance2')],
  'runtime monitoring: random meshes through the real code, every cell and facet value compared with numpy',
  'randomised'),
P('P22', 'Glued meshes and line meshes have each vertex once and all cells',
  'union_mesh of any number of pieces that share boundary vertices, in any order and grouping, has the cells of all pieces and every shared vertex (up to the tolerance) once; leafs map the vertices of each original piece to the union and the pieces are left alone. line_mesh joins branches, closed ones and single segments included, at common end points only, and StraightLineMesh divides the segment uniformly.',
  ['inputs', 'histories'],
  'all collections of pieces and branches, orders and groupings',
  'not tested; missing cells or doubled vertices show only for particular collections',
  [M+'union_mesh.py', M+'line_mesh.py', M+'generation.py', M+'make_mesh_cpp.py'],
  [('gluing', M+'union_mesh.py: union_mesh'), ('branches', M+'line_mesh.py: line_mesh')],
  'runtime monitoring: random decompositions and graphs through the real code, vertex and cell sets compared with those of the pieces',
  'randomised'),
P('P23', 'Branches and loops of curves are coloured, walked and enclosed exactly',
  'color_branches gives each maximal chain of cells between vertices that do not have two cells, and each closed one, its own colour and sorts colours into branches and loops; walk_vertices and walk_cells visit each cell of a colour (or of the mesh) once in linked order; refine_contour halves the segments in place and is_inside_contour and wind_number tell the inside from the outside for either orientation.',
  ['inputs'],
  'all curves: trees, loops at junctions, isolated loops, several pieces, in 2d and 3d; all contours',
  'the tests have two graphs; failures show only for particular topologies',
  [M+'branching.py'],
  [('colours', M+'branching.py: color_branches'), ('walks', M+'branching.py: walk_vertices, walk_cells'), ('contours', M+'branching.py: wind_number, is_inside_contour')],
  'runtime monitoring: random multigraphs through the real code, colours compared with the components found by networkx, walks checked online, contours against ray casting',
  'randomised'),
P('P24', 'Problems coupled by multipliers solve the plain problems they rewrite',
  'Prescribing boundary or interior values, normal fluxes or tangential components by multipliers on an EmbeddedMesh, gluing subdomains through a mortar or a hybrid (flux) multiplier, or imposing slip gives the same discrete solution as the problem written without multipliers, with boundary conditions on the blocks, in every time step when forms are assembled repeatedly with changing coefficients, and at the end of Newton iterations with block_jacobian.',
  ['inputs', 'histories'],
  'all meshes, interfaces, data and pairs of spaces for which the two discrete problems are equivalent; all ways to solve the block system',
  'demos check convergence by eye; a wrong sign or scaling in one coupling block still gives a plausible solution',
  [A+'trace_assembly.py', A+'trace_matrix.py', A+'xii_assembly.py', L+'bc_apply.py', M+'mortar_mesh.py', 'xii/nonlin/jacobian.py'],
  [('coupled systems', A+'xii_assembly.py: assemble'), ('conditions', L+'bc_apply.py: apply_bc'), ('subdomains', M+'mortar_mesh.py: mortar_meshes'), ('Newton', 'xii/nonlin/jacobian.py: block_jacobian')],
  'runtime monitoring: whole coupled solves on random data, compared with the solution of an equivalent problem without multipliers by dolfin alone or dense elimination',
  'randomised'),
P('P25', 'Meshes built from arrays and gmsh models have their cells and markers',
  'mesh_from_gmsh and build_mesh give a mesh with the cells and used vertices of the model, each once, in the right dimension (flat models in 2d), and one mesh function per dimension whose values are the physical tags on exactly the tagged entities and zero elsewhere; the arrays passed in are not changed and vertices no cell uses are left out; msh_gmsh_model meshes the model given. make_mesh gives the mesh with the vertices and cells of the arrays in their order, whatever their memory layout and integer type.',
  ['inputs'],
  'all simplicial models: dimensions, orders of nodes and elements, unused nodes, tags on entities of lower dimensions',
  'not tested at all; wrong numbering shows only when numbers of nodes have gaps',
  [M+'gmsh_interopt.py', M+'make_mesh_cpp.py'],
  [('import', M+'gmsh_interopt.py: mesh_from_gmsh'), ('arrays', M+'gmsh_interopt.py: build_mesh')],
  'runtime monitoring: random arrays and geometries meshed by gmsh through the real code, cells and tagged entities compared with those of the model by bit-exact coordinates',
  'randomised'),
P('P26', 'No reads outside of meshes, dofmaps and matrices, whatever was computed before',
  'The library only asks dolfin for entities, cells, dofs, mesh function values and matrix columns that exist, reads connectivity only after computing it and passes consistent arrays to its C++ mesh builder; so every result is the same on a fresh mesh as on one with any of its connectivity already computed.',
  ['inputs', 'histories'],
  'all meshes and all histories of connectivity computed on them before the call',
  'uncomputed connectivity is silently empty and numbers out of range silently read foreign memory: tests pass or fail by what ran before on the mesh',
  [M+'embedded_mesh.py', M+'subdomain_mesh.py', M+'mortar_mesh.py', M+'branching.py', M+'cell_centers.py', M+'make_mesh_cpp.py', A+'trace_matrix.py', A+'average_matrix.py'],
  [('traces', A+'trace_matrix.py'), ('meshes', M+'embedded_mesh.py: build_embedding_map'), ('curves', M+'branching.py'), ('builder', M+'make_mesh_cpp.py: make_mesh')],
  'sanitizer: hooks on the accesses to dolfin objects by the library check every index and that connectivity was computed, while runs on fresh, partly and fully initialised meshes are compared bit for bit',
  'randomised'),
P('P27', 'Compiled code is free of memory errors and undefined behaviour',
  'The C++ sources of the library (mesh builder, circumcenters in every dimension) neither access memory out of bounds nor have undefined behaviour when called through the Python functions with valid meshes of any dimensions, integer types and sizes; no result of the library depends on what fresh or freed memory contains, and none of its operations damages the heap.',
  ['inputs', 'histories'],
  'all meshes in all dimensions, all initial contents of the heap',
  'an access one past the end or a read of uninitialised memory usually passes: the heap of a short test is clean',
  [M+'make_mesh_cpp.py', M+'cell_centers.py', M+'refinement.py', A+'average_matrix.py', L+'fe_space_op.py', L+'convert.py'],
  [('mesh builder', M+'make_mesh_cpp.py: fill_mesh'), ('circumcenters', M+'cell_centers.py: code_1_2 .. code_3_3'), ('uninitialised arrays', M+'refinement.py, '+A+'average_matrix.py')],
  'sanitizers: the C++ sources compiled with AddressSanitizer, UndefinedBehaviorSanitizer and library assertions, the whole process on the heap of AddressSanitizer filled with a pattern, own cases and cases of the other checks; deviations are confirmed on the plain heap',
  'randomised'),
P('P28', 'Uniform extension from a curve takes the value at the nearest node',
  'uniform_extension_matrix of a space on a curve and a space of the same element on a surface (domain in the plane, or another curve) has in every row a single one, in the column of the same component at a nearest node of the curve; '
  'forms with an Extension of trial, test or coefficient arguments assembled by the extension assembler are the plain forms of the extended function, also after meshes moved or with other numbering of dofs.',
  ['inputs', 'histories'],
  'all curves and surfaces, all nodal scalar, vector and tensor elements and dof numberings',
  'no test of it runs; a wrong component or node shows only for vector elements or where the nearest node is not obvious',
  [A+'extension_matrix.py', A+'extension_form.py', A+'extension_assembly.py'],
  [('matrix', A+'extension_matrix.py: uniform_extension_matrix'), ('forms', A+'extension_assembly.py: assemble_form')],
  'runtime monitoring: every row of the matrix against distances computed with numpy, forms against plain forms by dolfin',
  'randomised'),
P('P29', 'Requests outside of what is defined are refused, and change nothing',
  'A request which is not defined raises instead of giving numbers: reductions (trace, restriction, injection, averages, means, point values, extension) of expressions, onto meshes '
  'of wrong dimension or of no known relation to the mesh of the function, for elements or value shapes they are not defined for, sided traces without a piecewise constant normal or with an unknown side, '
  'tags absent from the mesh; averaging shapes of no size or not in the plane they should be in; meshes, overlaps, embeddings, markers and normals from unrelated, unmarked or mismatched meshes; '
  'tangents, walks and winding numbers of meshes which are not curves, open contours, roots which are not at the end; sums, products and blocks of matrices whose sizes do not agree, including multiples of the identity in rectangular blocks; '
  'boundary conditions and functions which do not match the blocks; forms put into the block of other spaces, linear among bilinear, non-triangular systems to be made self-adjoint, jacobians of mismatched systems; iterations which did not converge. '
  'A refused request leaves meshes, markers, functions, systems and maps between meshes as they were, and valid requests before and after it give the same numbers.',
  ['inputs', 'histories'],
  'all requests of the listed kinds, on all meshes and markings, and all interleavings of them with valid requests',
  'the tests only make valid requests; a lost guard returns plausible numbers, which nothing compares',
  [A+'trace_form.py', A+'trace_matrix.py', A+'restriction_form.py', A+'injection_form.py', A+'average_form.py', A+'flux_average_form.py', A+'average_shape.py', A+'point_trace_form.py',
   A+'point_trace_matrix.py', A+'mean_form.py', A+'surface_mean_form.py', A+'patch_average_form.py', A+'transpose_trace_form.py', A+'block_form.py', A+'interpolation_matrix.py',
   L+'convert.py', L+'bc_apply.py', L+'function.py', L+'nest.py', L+'block_utils.py', L+'krylov_api.py', M+'embedded_mesh.py', M+'subdomain_mesh.py', M+'transfer_markers.py',
   M+'mortar_mesh.py', M+'branching.py', M+'dg_utils.py', M+'union_mesh.py', 'xii/nonlin/jacobian.py'],
  [('guards of reductions', A+'trace_form.py: Trace and the other *_form.py'), ('guards of algebra', L+'convert.py: collapse_mul/collapse_add/convert'),
   ('guards of meshes', M+'embedded_mesh.py: EmbeddedMesh, compute_embedding, OuterNormal'), ('guards of systems', A+'block_form.py: _block_form, permute')],
  'runtime monitoring: random histories of valid and undefined requests; monitors for refusal, for the state of all objects involved, and for equal answers to the valid requests',
  'requests are from a fixed list of kinds (about 200) on random meshes; any exception counts as a refusal'),
]
