#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files,
                                mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=list(observe), hook_needed=None)),
              technique, note))


D = 'sfepy/discrete/'
F = D + 'fem/'
C = D + 'common/'

prop('M01', 'Mesh entities, incidences and measures describe the actual mesh',
     'For every valid finite element mesh (lines, triangles, quadrilaterals, tetrahedra, '
     'hexahedra, mixed 2D meshes, embedded surface and truss meshes), the edges, faces and the '
     'incidence relations between entities of any two dimensions reported by its domain are '
     'exactly those given by the cell-vertex lists, in whatever order connectivities are '
     'requested or freed, and wrongly oriented cells are re-oriented without changing what they '
     'connect. Centroids, lengths/areas/volumes, unit outward facet normals, the surface facets, '
     'bounding box and connectivity graph match the geometry. Sub-meshes built from selected '
     'entities and mesh copies contain exactly the selected cells with their vertices and '
     'groups, and do not share data with the original.',
     ['inputs', 'histories'],
     'over all meshes (cell kind, vertex/cell numbering, local rotations, holes, inverted cells, '
     'embedding dimension), all entity subsets and all sequences of connectivity requests',
     'tests use a handful of mesh files with fixed numbering and check counts only',
     [C + 'extmods/mesh.c', C + 'extmods/cmesh.pyx', C + 'extmods/meshutils.c', F + 'mesh.py',
      F + 'domain.py'],
     [('mesh_build/mesh_transpose/mesh_intersect', C + 'extmods/mesh.c'),
      ('orient_elements', C + 'extmods/meshutils.c'),
      ('CMesh.create_new', C + 'extmods/cmesh.pyx')],
     'property-based testing against a brute-force incidence model',
     'random meshes of up to tens of cells; brute-force model from vertex sets')

prop('M02', 'Mesh refinement subdivides the domain exactly and conformingly',
     'Uniform refinement of any (ordered) line, triangle, quadrilateral, tetrahedron or hexahedron mesh '
     'splits every cell into its standard number of positively oriented children that keep the '
     'parent cell group, cover exactly the same domain, share the vertices of neighbouring '
     'cells, and introduce only edge, face and cell midpoints as new vertices. Local '
     'refinement of selected quadrilaterals or hexahedra with hanging nodes refines exactly those '
     'cells, and a field on the refined mesh with the returned hanging-node '
     'constraints is continuous and still reproduces every polynomial of its order.',
     ['inputs', 'histories'],
     'over meshes, numberings, refinement levels, and subsets of refined cells',
     'tests refine one or two meshes once and compare few numbers',
     [F + 'refine.py', F + 'refine_hanging.py', F + 'domain.py', C + 'domain.py'],
     [('refine_*', F + 'refine.py'), ('refine / eval_basis_transform', F + 'refine_hanging.py')],
     'property-based testing with geometric invariants and polynomial reproduction',
     'random meshes; up to two levels')

prop('M03', 'Mesh generation and mesh editing produce the geometry they promise',
     'Block, cylinder, extended block, tiled and voxel meshes have the requested dimensions, '
     'centre, vertex and cell counts and groups, and valid cells filling the described body without '
     'overlaps. Merging meshes and removing double vertices, selecting cells by groups, '
     'extruding/expanding/revolving planar meshes to 3D, mirroring, converting quadrilaterals/hexahedra to '
     'simplices, and extracting surfaces and outlines produce conforming meshes of exactly the described '
     'union of cells with their cell and vertex groups. Smoothing applies the documented '
     'iteration, optionally keeping the volume, without changing the original mesh.',
     ['inputs'],
     'over all shapes, dimensions, centres, cell kinds and merge configurations',
     'tests generate one mesh of each kind and compare with stored files or just run',
     ['sfepy/mesh/mesh_generators.py', 'sfepy/mesh/mesh_tools.py', F + 'mesh.py',
      'sfepy/mesh/geom_tools.py'],
     [('gen_block_mesh etc.', 'sfepy/mesh/mesh_generators.py'),
      ('expand2d, triangulate, smooth_mesh, merge', 'sfepy/mesh/mesh_tools.py')],
     'property-based testing with geometric oracles',
     'random parameters; exact volumes and coordinates')

prop('M04', 'Writing a mesh and reading it back preserves the mesh',
     'Writing a mesh into a file and reading it back yields the same vertex coordinates (to the '
     'written precision), the same cells of each kind with the same vertex order, and, where the '
     'format stores them, the same vertex and cell groups. This holds for every mesh kind a format '
     'can hold (cells of several kinds, facet cells, unused vertices), for chains of formats '
     '(abaqus, medit, vtk, vtu, hdf5, gmsh, xyz, netgen, su2), the dimension and bounding box '
     'reported by the reader agree, and omitting facets on reading keeps exactly the cells of the '
     'mesh dimension. The mesh converter (scaling, centering, rotation, 2D/3D forcing, cell '
     'dimension selection, group remapping and extraction, refinement, splitting to simplices, '
     'merging, saving per material) keeps or transforms the mesh exactly as documented.',
     ['inputs', 'configurations'],
     'over meshes (dimension, cell kinds, groups, numbering, magnitude of coordinates), formats '
     'and option combinations',
     'tests read stored sample files and write one mesh per format',
     [F + 'meshio.py', F + 'mesh.py', 'sfepy/scripts/convert_mesh.py'],
     [('MeshIO subclasses', F + 'meshio.py')],
     'round-trip property-based testing over generated meshes and formats',
     'formats whose library is installed; rotation is the rotation of the coordinate system')

prop('M05', 'Saved results and data structures are read back unchanged',
     'Results saved with a problem, field or mesh (all time steps, real or complex, point or '
     'cell data, in HDF5 or VTK files) are read back by the matching reader with the same '
     'values, steps and times, and time histories extracted from a file equal the saved '
     'sequences. Dictionaries, lists, arrays, sparse matrices, enumerations and sfepy objects stored in '
     'an HDF5 container are restored equal to what was stored, including shared references.',
     ['inputs', 'histories'],
     'over data shapes, dtypes, step sequences, nesting of containers',
     'tests write one fixed structure and read it back',
     [F + 'meshio.py', 'sfepy/base/ioutils.py', 'sfepy/postprocess/time_history.py'],
     [('HDF5MeshIO', F + 'meshio.py'), ('write_to_hdf5/read_from_hdf5', 'sfepy/base/ioutils.py')],
     'round-trip property-based testing',
     'random nested values and result dictionaries')

prop('R01', 'Region selectors select exactly the entities they describe',
     'For every mesh and every region definition built from the documented selectors and the '
     'operators +, -, * (optionally restricted to vertices, edges, faces, facets or cells), the '
     'vertices, edges, faces and cells of the region are exactly those of the set-theoretic '
     'definition; operators not separated by parentheses group from the right. Lower-dimensional entities of a '
     'region are those incident to its defining entities, and higher-dimensional ones are those '
     'all of whose vertices belong to it, as its kind allows.',
     ['inputs', 'programs'],
     'over meshes, groups and all region expressions',
     'tests evaluate about thirty fixed definitions on one mesh',
     [C + 'region.py', C + 'domain.py', D + 'parse_regions.py'],
     [('Region set operators', C + 'region.py'), ('Domain.create_region', C + 'domain.py')],
     'property-based testing of random region expressions against a naive set model',
     'expressions up to depth 3')

prop('R02', 'Region facets, parents and mirrors address the right cells and nodes',
     'For every facet region, the facet indices returned for it are exactly the (cell, local '
     'facet) pairs of its facets within its parent cells, its surface connectivity lists the '
     'vertices of those facets with outward orientation, and a mirror region pairs '
     'every facet with the coinciding facet seen from the other side. Field DOFs of a region '
     'are exactly the nodes located on its entities, and meshes extracted from a region contain '
     'exactly its cells or facets.',
     ['inputs'],
     'over meshes, facet regions (surface and interior), parents and approximation orders',
     'tests use a few fixed regions',
     [C + 'region.py', F + 'fe_surface.py', F + 'fields_base.py', F + 'mesh.py'],
     [('Region.get_facet_indices', C + 'region.py'), ('Region.setup_mirror_region', C + 'region.py'),
      ('FESurface', F + 'fe_surface.py'), ('Field.get_dofs_in_region', F + 'fields_base.py')],
     'property-based testing against brute-force geometry',
     'random meshes and facet sets')

prop('Q01', 'Quadrature rules integrate polynomials exactly up to their order',
     'For every reference cell and every available order, the quadrature points lie in the '
     'reference cell and the rule integrates all polynomials up to that order exactly (total '
     'degree on simplices, degree in each coordinate on tensor-product cells). The weights sum to the cell '
     'volume, rules given by the user on other bounds are moved to the reference cell keeping exactness, and an integral '
     'requested by any order returns a rule of at least that order.',
     ['inputs', 'configurations'],
     'over reference cells, orders, and polynomials of admissible degree',
     'tests check selected monomials on selected geometries only',
     [D + 'quadratures.py', D + 'integrals.py', D + 'simplex_cubature.py'],
     [('quadrature tables', D + 'quadratures.py'), ('get_poly', D + 'simplex_cubature.py')],
     'enumeration of rules with generated polynomials against exact rational integrals',
     'all tabulated orders are enumerated each run')

prop('B01', 'Basis functions satisfy their defining identities everywhere',
     'For every family of basis functions, reference cell and order, the functions evaluated at any '
     'points span the declared polynomial space and are linearly independent, nodal bases are '
     'one at their own node and zero at others, bases declared to do so sum to one, '
     'and orthogonal DG bases are orthogonal. First derivatives, and second derivatives of Lagrange '
     'bases, equal the derivatives of the functions at any point, in the interior and on the '
     'boundary of the cell.',
     ['inputs', 'configurations'],
     'over basis family, geometry, order and evaluation points',
     'tests sample a few orders and points',
     [F + 'poly_spaces.py', F + '_serendipity.py', C + 'poly_spaces.py', F + 'extmods/bases.pyx',
      F + 'extmods/lagrange.c', D + 'dg/poly_spaces.py'],
     [('PolySpace.eval_basis', C + 'poly_spaces.py'), ('eval_lagrange_*', F + 'extmods/lagrange.c')],
     'property-based testing with exact polynomial interpolation as the oracle',
     'orders up to 7 (1D), 6 (2D), 4-5 (3D)')

prop('F01', 'Global finite element spaces are conforming and complete',
     'On every mesh, the DOFs of a field of any supported order and basis are shared between '
     'neighbouring cells so that every field function is continuous across facets, each '
     'DOF belongs to at least one cell, and the number of DOFs equals that of the '
     'conforming space. Setting DOFs from a polynomial of at most the field order (by '
     'interpolation or projection) reproduces the polynomial and its gradient at every '
     'point of every cell, for scalar and vector fields, on the whole domain, subdomains and surfaces.',
     ['inputs', 'configurations'],
     'over meshes with any numbering/orientation, orders, bases, numbers of components, regions',
     'tests use one or two fixed meshes, where most relative orientations never occur',
     [F + 'fields_base.py', F + 'fields_nodal.py', F + 'fields_hierarchic.py', F + 'facets.py',
      F + 'fields_positive.py', F + 'fields_l2.py', D + 'projections.py', D + 'variables.py'],
     [('FEField setup of facet DOFs', F + 'fields_base.py'), ('facet permutations', F + 'facets.py')],
     'property-based testing: inter-cell continuity and polynomial reproduction',
     'orders 1-4, small random meshes')

prop('F02', 'Field values at arbitrary points and probes equal the field function',
     'For any mesh and any points, the point location returns a cell containing '
     'the point and its reference coordinates whenever the point lies in the mesh, flags points '
     'outside the mesh, and evaluating a field or probing it along points, lines, rays and '
     'circles gives the value of the field function there. '
     'Interpolating a variable to another mesh, or saving it in vertices or linearized, gives '
     'the field values in the nodes of the other mesh.',
     ['inputs'],
     'over meshes, fields, points (inside, on facets, vertices, outside), evaluation strategies',
     'tests evaluate one field at a few points',
     [C + 'global_interp.py', C + 'extmods/crefcoors.pyx', C + 'extmods/refcoors.c', D + 'probes.py',
      C + 'fields.py', D + 'variables.py', F + 'fields_base.py'],
     [('get_ref_coors', C + 'global_interp.py'), ('Field.evaluate_at', C + 'fields.py'),
      ('Probe', D + 'probes.py')],
     'property-based testing against known field functions',
     'polynomial fields on random meshes')

prop('G01', 'Geometric mappings satisfy the change of variables and divergence theorem',
     'On every mesh, region and integral, cell and facet mappings give physical '
     'quadrature points, volume elements, and basis gradients equal to those of the '
     'element-wise isoparametric map, in the reference or a moved configuration. Facet normals '
     'are outward unit vectors, and the divergence theorem holds for polynomial vector fields '
     'on every union of cells.',
     ['inputs'],
     'over meshes, regions, quadrature orders, polynomial fields',
     'tests check the volume and normals of two meshes',
     [F + 'mappings.py', C + 'mappings.py', C + 'extmods/cmapping.pyx', C + 'extmods/refmaps.c',
      F + 'fields_base.py'],
     [('FEMapping.get_mapping', F + 'mappings.py')],
     'property-based testing against an independent isoparametric map and the divergence theorem',
     'first order geometry')

prop('T01', 'Terms evaluate the integrals they document',
     'For every documented integral term for which a closed form integrand is available '
     '(diffusion, elasticity, dot products, gradients, divergence, convection, Navier-Stokes, '
     'Biot, piezoelectric, surface, point and history terms), the value, residual '
     'vector and matrix it assembles equal the documented integral computed independently, for any '
     'polynomial arguments, constant or variable material parameters, mesh, dimension, region and sign. '
     'Evaluation modes are mutually consistent: the element values sum to the total, and '
     'averages are element values divided by volumes.',
     ['inputs', 'configurations'],
     'over terms, meshes, arguments, materials, regions and evaluation modes',
     'tests only check that terms run, or compare selected pairs of modes on one mesh',
     ['sfepy/terms/terms.py', 'sfepy/terms/terms_basic.py', 'sfepy/terms/terms_diffusion.py',
      'sfepy/terms/terms_elastic.py', 'sfepy/terms/terms_dot.py', 'sfepy/terms/terms_navier_stokes.py',
      'sfepy/terms/extmods/'],
     [('Term.evaluate', 'sfepy/terms/terms.py'), ('C kernels', 'sfepy/terms/extmods/')],
     'differential property-based testing against independent quadrature of the documented integrands',
     'polynomial arguments of order <= 2 on random small meshes')

prop('T02', 'Weak form residuals and tangent matrices of a term agree',
     'For every term usable in the weak mode and every state, the matrix a term assembles is the '
     'derivative of the residual vector it assembles with respect to the unknown, linear '
     'terms give residuals equal to matrix times state, and the residual applied to a '
     'function equals the term evaluated with that function in place of the virtual one where '
     'both modes exist. Both are additive over disjoint regions and linear in the '
     'material coefficient where it is documented as a multiplier.',
     ['inputs', 'configurations'],
     'over all weak terms, states, meshes, approximation orders and material values',
     'the existing term consistency test covers a part of the terms on one mesh with few states',
     ['sfepy/terms/'],
     [('Term.evaluate(mode=weak)', 'sfepy/terms/terms.py')],
     'property-based testing with finite difference tangents',
     'random states on small meshes, tolerance of central differences')

prop('T03', 'Multilinear terms agree with classical terms for all backends and layouts',
     'Every term defined by an Einstein-like expression gives the same values, residuals and '
     'matrices for every evaluation backend, layout and optimization setting, and equal to the '
     'corresponding classical term where one exists, for real and complex arguments, '
     'all differentiation variables and all material shapes.',
     ['configurations', 'inputs'],
     'over backends, layouts, terms, states, materials and meshes',
     'tests compare selected backends on a fixed mesh',
     ['sfepy/terms/terms_multilinear.py'],
     [('ETermBase', 'sfepy/terms/terms_multilinear.py')],
     'differential property-based testing across backends and against classical terms',
     'the installed backends: numpy, opt_einsum, jax, dask')

prop('E01', 'Assembled equations are the sum of the terms as written',
     'The residual and matrix of a system of equations are the sums of the '
     'contributions of its terms with the written signs and scalar multipliers, placed in '
     'the rows of the test variable and columns of the unknown, whatever the number of '
     'variables, order of terms and equations, and right-hand side placement. Parsing is independent of '
     'formatting, and evaluating an expression gives the same number as its equation.',
     ['programs', 'inputs'],
     'over equation systems, coefficients, variable orderings, boundary conditions',
     'tests assemble a few fixed systems',
     [D + 'equations.py', D + 'parse_equations.py', D + 'evaluate.py', C + 'extmods/assemble.pyx',
      'sfepy/terms/terms.py', C + 'dof_info.py'],
     [('Equations.evaluate / assemble', D + 'equations.py'), ('parse_definition', D + 'parse_equations.py')],
     'property-based testing of random equation systems against a naive dense assembler',
     'up to three unknowns on small meshes')

prop('E02', 'Boundary conditions and constraints hold in every full state vector',
     'For any combination of essential, periodic and linear combination boundary conditions '
     'on any regions (constants, functions, shifted or time dependent), every full DOF vector made from '
     'a reduced one satisfies all conditions, and reducing and expanding are mutually '
     'inverse. The reduced system is the exact elimination of the constraints from the full '
     'system, so the solution solves the constrained problem.',
     ['inputs', 'configurations', 'histories'],
     'over meshes, fields, sets of conditions, times',
     'tests use fixed regions and check a few values',
     [D + 'conditions.py', C + 'dof_info.py', F + 'lcbc_operators.py', F + 'periodic.py',
      D + 'variables.py', D + 'equations.py'],
     [('EquationMap', C + 'dof_info.py'), ('LCBCOperators', F + 'lcbc_operators.py')],
     'property-based testing of random condition sets with algebraic oracles',
     'conditions that are mutually compatible')

prop('P01', 'Boundary value problems with polynomial solutions are solved exactly',
     'Whenever the exact solution of a linear boundary value problem (diffusion, elasticity, '
     'Stokes, convection-diffusion, piezoelectricity, Biot, with Dirichlet, Neumann, Robin or '
     'periodic conditions) lies in the finite element space, the solution returned by the problem solver '
     'equals it up to the solver tolerance on every mesh. The result is independent of vertex '
     'and cell numbering and of whether the problem is set up declaratively or interactively.',
     ['inputs', 'configurations'],
     'over meshes, orders, coefficients, exact solutions, boundary splits, set-up styles',
     'tests solve a handful of problems on fixed meshes',
     [D + 'problem.py', D + 'equations.py', 'sfepy/applications/pde_solver_app.py',
      'sfepy/solvers/'],
     [('Problem.solve', D + 'problem.py')],
     'property-based testing with manufactured polynomial solutions',
     'small meshes, direct solvers')

prop('P02', 'Equivalent problem descriptions define the same problem',
     'A problem described by any mixture of the documented short and long keyword syntax, by '
     'module variables, a dictionary, or a define() function with arguments, is the same problem: the same '
     'regions, fields, variables, conditions, materials, functions, equations and '
     'options, and the same solution. Missing required keywords '
     'are rejected, command line overrides replace exactly the given entries, and copies of a problem, '
     'reset problems and problems solved block by block have the same solution.',
     ['programs', 'configurations'],
     'over problem descriptions',
     'tests read existing example files only',
     ['sfepy/base/conf.py', 'sfepy/base/parse_conf.py', D + 'problem.py'],
     [('ProblemConf transforms', 'sfepy/base/conf.py'), ('create_bnf', 'sfepy/base/parse_conf.py')],
     'metamorphic property-based testing over generated problem descriptions',
     'diffusion and elasticity-like descriptions')

prop('S01', 'Linear solvers solve the given system for any call history',
     'Every available linear solver applied to a regular system within its documented '
     'class returns a solution with residual within its tolerance, and reports convergence '
     'truthfully. The result depends only on the '
     'current matrix and right-hand side, not on previously solved systems, presolve, '
     'or reuse settings.',
     ['inputs', 'histories', 'configurations'],
     'over matrices, right-hand sides, solver options and call sequences',
     'tests solve one Laplace system per solver',
     ['sfepy/solvers/ls.py', 'sfepy/solvers/solvers.py', 'sfepy/solvers/auto_fallback.py'],
     [('LinearSolver subclasses', 'sfepy/solvers/ls.py')],
     'stateful property-based testing against dense solves',
     'solvers whose packages are installed here')

prop('S02', 'Nonlinear and optimization solvers report their result truthfully',
     'For every system, starting point and options, the Newton solver takes exactly the documented '
     'steps (tangent matrix updates, scaling, step reduction, line searches on residuals or errors, '
     'reductions after failed evaluations), stops by the documented criteria, and returns the '
     'state it reports: residual norms, numbers of iterations, condition, and log. Linear systems are '
     'solved in one iteration, and the converged states of monotone systems are their roots. The '
     'semi-smooth Newton solver finds the solution of complementarity problems from nearby starts and '
     'reports convergence truthfully; steepest descent and the SciPy interfaces report '
     'the status, counts and minima of their runs.',
     ['inputs', 'configurations'],
     'over nonlinear systems, starting points and solver options',
     'tests run one or two nonlinear problems',
     ['sfepy/solvers/nls.py', 'sfepy/solvers/semismooth_newton.py', 'sfepy/solvers/optimize.py'],
     [('Newton', 'sfepy/solvers/nls.py'), ('conv_test', 'sfepy/solvers/nls.py')],
     'property-based testing with generated systems and recorded evaluations',
     'small dense/sparse systems')

prop('S03', 'Eigenvalue solvers return true eigenpairs in the requested part',
     'Every available eigenvalue solver returns pairs satisfying the (generalized or quadratic) '
     'eigenvalue equation, and the requested number of eigenvalues equals the extreme part of the '
     'spectrum that was asked for, for any admissible matrices, with or without '
     'eigenvectors.',
     ['inputs', 'configurations'],
     'over matrix pairs, numbers of eigenvalues, selections and solvers',
     'tests solve one eigenproblem',
     ['sfepy/solvers/eigen.py', 'sfepy/solvers/qeigen.py', 'sfepy/linalg/eigen.py'],
     [('EigenvalueSolver subclasses', 'sfepy/solvers/eigen.py')],
     'property-based testing against dense reference spectra',
     'installed solvers only')

prop('S04', 'Time-stepping solvers follow their documented recurrences',
     'Each elastodynamics integrator (velocity Verlet, central difference, Newmark, generalized alpha, Bathe), '
     'applied to linear semi-discrete systems, produces in '
     'every step the state given by its documented recurrence, with loads of the '
     'current time, consistent initial acceleration and the requested steps; '
     'schemes documented as energy conserving conserve energy, and schemes converge with their '
     'order. Adaptive step control keeps the documented error norm and step bounds, and with fixed '
     'step controllers results do not depend on options documented as optimizations only (constant '
     'matrices).',
     ['inputs', 'configurations', 'histories'],
     'over systems, step sizes, integrator parameters, loads and initial conditions',
     'tests compare several solvers on one problem with loose tolerances',
     ['sfepy/solvers/ts_solvers.py', 'sfepy/solvers/ts_controllers.py', 'sfepy/solvers/ts_dg_solvers.py'],
     [('elastodynamics solvers', 'sfepy/solvers/ts_solvers.py')],
     'differential property-based testing against dense reference recurrences',
     'small meshes')

prop('S05', 'Time stepping visits the prescribed times and supports restarts',
     'A time stepper visits exactly the requested number of equidistant times from start to end, '
     'also after restoring its state, setting a step, or reconstruction from a stored description, and an adaptive '
     'stepper stops at the first time reaching the end and follows the step changes it was given '
     'and the documented step adaptation. Saving steps '
     'are those requested, and a run with a fixed time step restarted from any saved step before '
     'the last one finishes in the same states as the uninterrupted run.',
     ['inputs', 'histories', 'crash_points'],
     'over time grids, operation sequences, interruption points',
     'tests use one time grid and one restart',
     ['sfepy/solvers/ts.py', 'sfepy/solvers/ts_solvers.py', D + 'problem.py'],
     [('TimeStepper', 'sfepy/solvers/ts.py'), ('Problem.save_restart/load_restart', D + 'problem.py')],
     'stateful property-based testing against a model stepper; restart at every step',
     'diffusion-like evolution problems')

prop('V01', 'Variables keep their data, history and evaluations consistent',
     'For any sequence of assigning, advancing in time, and evaluating, a variable returns the '
     'data last assigned to the current and the previous steps, and evaluating it or its gradient, divergence, '
     'strain or time derivative in any region and mode equals the function given by these '
     'data, with no stale cached values. The full state vector is the concatenation of the variables '
     'in their order, and slicing, setting parts and reductions are mutually inverse.',
     ['histories', 'inputs'],
     'over sequences of operations on variables',
     'tests perform short fixed sequences',
     [D + 'variables.py', D + 'evaluate_variable.py', C + 'dof_info.py'],
     [('FieldVariable.evaluate + evaluate_cache', D + 'variables.py'), ('Variables', D + 'variables.py')],
     'stateful property-based testing against a model',
     'small meshes')

prop('K01', 'Material parameters have the values of their definition everywhere',
     'Material parameters given as constants, per-region dictionaries, arrays or functions have, '
     'in every quadrature point of every region and integral where a term uses them, exactly the value '
     'of the definition at that point and time, for any shape and any sequence of time '
     'and problem changes, and special constants are passed unchanged. Functions of coordinates '
     'get the right coordinates, and values are never stale or mixed between regions or integrals.',
     ['histories', 'inputs', 'configurations'],
     'over materials, regions, integrals, times, update sequences',
     'tests evaluate single functions on one mesh',
     [D + 'materials.py', D + 'functions.py'],
     [('Material.update_data', D + 'materials.py'), ('Functions', D + 'functions.py')],
     'stateful property-based testing against direct evaluation',
     'small meshes')

prop('H01', 'Homogenized coefficients are exact, bounded and order independent',
     'The homogenized diffusion, elasticity and Biot-like coefficients of a periodic box cell '
     '(order 1 and 2 fields, correctors given by cell equations with periodic conditions and fixed '
     'corners) equal those of a directly assembled and solved discrete cell problem divided by the '
     'given volume (expression, value, or a named volume); a homogeneous cell returns the material, a layered cell '
     'the closed form of laminates, and every cell a symmetric matrix between the Reuss and '
     'Voigt bounds. All coefficient classes (matrix, symmetric and non-symmetric, vector, scalar, sums, '
     'expressions, volume fractions) return the corresponding parts. They depend neither on the order '
     'in which requirements and coefficients are listed, nor on compute_only, nor on multi-processing with chunks; '
     'several updated microstructures give the coefficients of their own geometry. '
     'Stored coefficients are read back unchanged. Box regions, lattice and box volumes, symmetric storage indices and '
     'time integration helpers follow their definitions.',
     ['inputs', 'configurations', 'schedules'],
     'over cells, phases, coefficient dependency graphs, evaluation modes',
     'tests compare one cell with stored values',
     ['sfepy/homogenization/engine.py', 'sfepy/homogenization/coefs_base.py',
      'sfepy/homogenization/utils.py', 'sfepy/homogenization/multiproc.py', 'sfepy/base/resolve_deps.py'],
     [('HomogenizationEngine', 'sfepy/homogenization/engine.py'), ('resolve', 'sfepy/base/resolve_deps.py')],
     'property-based testing with closed-form laminates, bounds, and permuted definitions',
     'small cells')

prop('L01', 'Mechanics, tensor and linear algebra helpers satisfy their identities',
     'Conversions between elastic constants, stiffness matrices, Lame parameters, '
     'vector and full storage of symmetric tensors, engineering quantities and unit systems are mutually '
     'consistent for all admissible inputs; invariants, deviatoric and volumetric parts, von Mises '
     'stresses and transformations match their definitions. Vectorized linear algebra '
     'helpers (products, determinants, inverses, norms, rotations, geometry predicates, sparse utilities) '
     'equal the naive element-wise computation for every shape.',
     ['inputs'],
     'over all numerical inputs and array shapes',
     'tests use one or two samples',
     ['sfepy/mechanics/', 'sfepy/linalg/', C + 'extmods/_geommech.pyx'],
     [('matcoefs', 'sfepy/mechanics/matcoefs.py'), ('tensors', 'sfepy/mechanics/tensors.py'),
      ('linalg.utils', 'sfepy/linalg/utils.py')],
     'property-based testing with naive re-computation and round trips',
     'well-conditioned random values')

prop('I01', 'Isogeometric basis and mapping represent the NURBS exactly',
     'For every NURBS patch with open knot vectors, the Bezier-extracted element evaluation equals the '
     'Cox-de Boor definition of rational tensor product splines: basis values, physical gradients, '
     'Jacobians, coordinates, variable values (compiled and Python implementations, all or selected cells), '
     'evaluation in tensor product parameters, and the Bezier mesh, its connectivity and box regions. '
     'Domains created from patch data or read back from a file or an HDF5 group have the same patch '
     'data, vertices and vertex sets; DOFs of a side are exactly those of its control points; integrals, '
     'matrices and physical quadrature points of fields equal those of the definition; linear functions are projected '
     'exactly to sides and a Laplace problem with linear solution is solved exactly; the output of a field '
     'samples it. B-spline curves and surfaces (clamped, cyclic, user-defined '
     'knots of any range) follow the definition, are affine invariant, keep their shape after knot insertion, and approximate '
     'points in the least squares sense. Spline boxes evaluate initially to the identity, '
     'transform affinely, add up control point movements and their derivatives, and reproduce '
     'spline fields.',
     ['inputs', 'configurations'],
     'over degrees, knot vectors, weights, control points and dimensions',
     'tests use one spline box and stored patches',
     [D + 'iga/', 'sfepy/mesh/bspline.py', 'sfepy/mesh/splinebox.py'],
     [('compute_bezier_extraction', D + 'iga/iga.py'), ('eval_mapping_data_in_qp', D + 'iga/iga.py'),
      ('C kernel', D + 'iga/extmods/nurbs.c')],
     'differential property-based testing against a Cox-de Boor reference',
     'degrees up to 4, up to 3 dimensions')

prop('D01', 'Discontinuous Galerkin schemes are conservative and consistent',
     'On line, quadrilateral and triangle meshes of affine cells of any sizes and numbering, DG fields represent '
     'polynomials of their order exactly in each cell; facet neighbours, normals and measures agree with the mesh; '
     'the inner and outer traces on a facet belong to the same physical points, also with Dirichlet and periodic '
     'conditions. The advection, nonlinear, interior penalty and diffusion fluxes equal their documented facet '
     'integrals (physical gradients), matrices are derivatives of residuals, and periodic schemes conserve. Moment '
     'limiters keep cell means and linear data and limit every inner cell as defined. The explicit Euler, '
     'TVD RK3 and RK4 solvers follow their stages, applied to all terms, and call the step hooks once per step with '
     'its time.',
     ['inputs', 'histories'],
     'over meshes, orders, fluxes, velocities and states',
     'tests call the terms once and compare simple cases',
     [D + 'dg/fields.py', D + 'dg/poly_spaces.py', D + 'dg/limiters.py', 'sfepy/terms/terms_dg.py',
      'sfepy/solvers/ts_dg_solvers.py'],
     [('DGField', D + 'dg/fields.py'), ('limiters', D + 'dg/limiters.py')],
     'property-based testing with polynomial exactness and conservation',
     'line, parallelogram and triangle meshes; scalar fields; constant coefficients')

prop('W01', 'Band gaps, memory kernels and recovery follow their definitions',
     'For any resonances, eigenmomenta and densities: acoustic mass, applied load and Christoffel acoustic tensors '
     'equal their formulas, phase velocities and polarization angles follow; frequency ranges and margins contain '
     'the requested valid resonances; the detected zones (strong/weak gap, propagation) tile each interval '
     'between resonances, and in each of them the mass tensor has the inertia which the zone means; logs hold its '
     'eigenpairs. Eigenmomenta are the integrals of eigenvectors, zeroed exactly below the threshold. Fading-memory '
     'kernels, their exponential approximations, interpolation and time integrals, and the micro-scale recovery '
     'functions (macro-induced fields, correctors, convolutions in time) equal their documented sums.',
     ['inputs', 'histories'],
     'over resonances, tensors, directions, ranges, thresholds, kernels, time grids and histories',
     'one example of band gaps is only run, the kernels and recovery functions are not tested',
     ['sfepy/homogenization/coefs_phononic.py', 'sfepy/homogenization/convolutions.py',
      'sfepy/homogenization/recovery.py', 'sfepy/homogenization/utils.py'],
     [('detect_band_gaps', 'sfepy/homogenization/coefs_phononic.py'),
      ('ConvolutionKernel', 'sfepy/homogenization/convolutions.py')],
     'property-based testing: inertia of the independently assembled mass tensor, explicit sums',
     'resonances at least 1e-3 apart; zone ends judged up to 1e-5 of the interval')

prop('H02', 'Hyperelastic materials are objective and derive from their energies',
     'For every deformation with a positive Jacobian, the stresses of the total Lagrangian '
     'hyperelastic terms derive from the documented strain energy or formula, vanish in the '
     'stress-free reference state, and are invariant under rigid rotations; the residuals are their '
     'virtual works. The updated Lagrangian terms give the same residuals, tangents, stresses and '
     'solutions as the total Lagrangian ones from any starting state, including the mixed '
     'displacement-pressure formulation. Terms differentiable with respect to material parameters '
     'give the derivatives.',
     ['inputs'],
     'over deformations, parameters and meshes',
     'tests compare TL and UL on one deformation path',
     ['sfepy/terms/terms_hyperelastic_tl.py', 'sfepy/terms/terms_hyperelastic_ul.py',
      'sfepy/terms/terms_hyperelastic_base.py', 'sfepy/terms/extmods/terms_hyperelastic.c'],
     [('HyperElasticBase', 'sfepy/terms/terms_hyperelastic_base.py')],
     'property-based testing against energy densities in NumPy and metamorphic rotations',
     'random admissible deformations')

prop('A01', 'Sensitivity and special formulations equal derivatives or references',
     'Shape sensitivity terms equal the derivative of the corresponding term with respect to domain motion along '
     'the given design velocity, for every mesh, region and state. Spring, directional spring and truss terms give '
     'the documented residuals and stiffness matrices in any element direction. Contact with a rigid plane or sphere '
     'gives the documented force law and its tangent. The membrane residual and matrix are the derivatives of the '
     'Mooney-Rivlin energy. The shell10x matrix is symmetric, rotates with the shell, annihilates rigid motions and '
     'gives exact energies of constant strains and curvatures.',
     ['inputs'],
     'over states, design velocities and meshes',
     'tests check two sensitivity terms on one mesh',
     ['sfepy/terms/terms_sensitivity.py', 'sfepy/terms/terms_elastic.py',
      'sfepy/terms/terms_surface.py', 'sfepy/terms/terms_membrane.py', 'sfepy/terms/terms_shells.py',
      'sfepy/mechanics/'],
     [('sensitivity terms', 'sfepy/terms/terms_sensitivity.py')],
     'property-based testing with finite differences of moved domains',
     'smooth random design velocities')

prop('U01', 'Logs, containers and configuration utilities round-trip',
     'Plot logs written to a file are read back with the same names, values and structure. '
     'Containers, structures and option utilities behave as documented maps and lists '
     'under any sequence of operations, and dictionary strings given on the command line '
     'are parsed to the values they denote. Dependency resolution of a well-posed block system returns an admissible order with the finest blocks.',
     ['inputs', 'histories'],
     'over operation sequences and values',
     'tests use single examples',
     ['sfepy/base/log.py', 'sfepy/base/base.py', 'sfepy/base/parse_conf.py', 'sfepy/base/resolve_deps.py',
      'sfepy/base/ioutils.py'],
     [('Log/read_log', 'sfepy/base/log.py'), ('Container/Struct', 'sfepy/base/base.py'),
      ('parse_conf', 'sfepy/base/parse_conf.py')],
     'model-based and round-trip property-based testing',
     'random values and operation sequences')

prop('Z01', 'Compiled kernels never access memory out of bounds',
     'For every mesh, field, region, point set and term that the Python layer accepts, '
     'the compiled kernels read and write only inside their arrays, and never crash. '
     'Sequences of mesh connectivity queries keep the arrays obtained earlier valid, and '
     'invalid entity ids are rejected with an exception.',
     ['inputs', 'histories'],
     'over the inputs of the other properties',
     'tests run uninstrumented kernels',
     [C + 'extmods/', 'sfepy/terms/extmods/', F + 'extmods/', D + 'iga/extmods/',
      'sfepy/mechanics/extmods/'],
     [('C kernels', C + 'extmods/')],
     'fuzzing the compiled kernels under AddressSanitizer and UBSan with the generators of other checks',
     'one run of the sanitized build')


def main():
    done = [p for p in P
            if os.path.exists(os.path.join(HERE, 'checks', p[0]['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fd:
        for p, _, _ in P:
            fd.write(json.dumps(p) + '\n')
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python lib/buildext.py /repo .cache',
        'checks': [{
            'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
            'technique': t, 'level': 'exploration',
            'level_note': 'Generated-input search: no violation among the cases counted in the '
            'evidence file, no proof of absence. Trusts the oracle code in checks/ and NumPy/SciPy. '
            'Bounds: %s.' % n} for p, t, n in done],
        'not_applicable': [{'property': p['id'], 'reason': 'Amenable, but no check has been built yet.'}
                           for p, _, _ in P if p['id'] not in [d[0]['id'] for d in done]],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fd:
        json.dump(man, fd, indent=1)
        fd.write('\n')
    print(len(P), 'properties', len(done), 'checks')


main()
