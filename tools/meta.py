"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=state, na=na, note=note))


TB = 'pycomplex/topology/base.py'
TP = 'pycomplex/topology/primal.py'
TS = 'pycomplex/topology/simplicial.py'
TC = 'pycomplex/topology/cubical.py'
TU = 'pycomplex/topology/util.py'
TD = 'pycomplex/topology/dual.py'

prop('C01', 'Simplicial complexes form a chain complex',
     'For every list of simplices over a contiguous range of vertices, the constructed topology keeps the given simplices in order and orientation, contains exactly the faces of those simplices (each once), '
     'and its signed incidence matrices carry the induced orientation, so that the boundary of the boundary of every chain vanishes; vertices that do not form a contiguous range are refused. '
     'The self check of a topology accepts it exactly when every product of consecutive incidence matrices vanishes.',
     ['inputs'], 'all simplex lists, all vertex numberings and local orientations, all chains',
     'The tests build a handful of meshes and mostly print them; no test checks the sign convention for more than one vertex ordering, none quantifies over orderings.',
     [TS, TP, TB, TU], [dict(name='from_simplices / relative parity lookup', where=TS), dict(name='check_chain', where=TB)])
prop('C02', 'Cubical complexes form a chain complex',
     'For every list of n-cubes over a contiguous range of vertices, given with arbitrary axis orders and mirrors, the constructed topology keeps the cubes in order and orientation, contains exactly their faces (each once) '
     'and carries the induced orientation in its incidence matrices, so that the boundary of the boundary of every chain vanishes. '
     'Arrays that are not cubes, cubes glued along a face that is not the same square for both, and non-contiguous vertices are refused.',
     ['inputs'], 'all cube lists, all vertex numberings, all symmetries of each cube, all chains',
     'The tests use axis aligned regular grids and one re-oriented pair of squares; the symmetry group of the cube has 8 (2d) and 48 (3d) elements per cube.',
     [TC, TP, TB, TU], [dict(name='from_cubes / permutation_map / relative_cube_parity', where=TC)])
prop('C03', 'Orientation is detected and repaired exactly when possible',
     'A complex reports itself as oriented exactly when all pairs of elements that share a facet (between exactly two elements) agree in orientation. '
     'Fixing the orientation of any orientable complex (including disconnected ones and loose elements) yields the same elements in the same order, each kept or mirrored, such that all neighbours agree; a non-orientable complex is refused with an error.',
     ['inputs', 'configurations'], 'all choices of local orientation and numbering on open, closed, disconnected, non-manifold and non-orientable complexes',
     'The tests only fix the orientation of an icosahedron-like closed mesh and never present a non-orientable or disconnected one.',
     [TB, TS, TC], [dict(name='relative_parity (SAT clauses over interior facets)', where=TB), dict(name='fix_orientation', where=TS + ', ' + TC)])
prop('C04', 'Subsets, boundaries, components and selectors are exact',
     'Selecting any subset of elements (with whatever signs) gives exactly those elements with all their faces, and references to the same elements of the parent; the boundary of an oriented complex consists of exactly the facets that do not cancel, with all their faces, '
     'is itself closed and oriented, refers to the same parent elements, and is absent for closed complexes. Connected components partition the elements (largest first), vertices with more than one region around them make a complex non-manifold, '
     'and the interior and boundary selectors split every form into the parts on and off the boundary.',
     ['inputs', 'configurations'], 'all subsets of elements of a complex, all forms on them',
     'The tests take a few fixed subsets and compare positions; the number of subsets is exponential.',
     [TP, TB, TU], [dict(name='boundary, select_subset, selectors', where=TP), dict(name='label_connections, regions_per_vertex', where=TB)])
prop('C05', 'The dual of an oriented complex is a chain complex closed by its boundary',
     'Every oriented manifold complex has a dual with one dual element per primal element and one per boundary element, whose interior incidence is the transposed primal incidence and in which every boundary facet is joined to its own dual boundary vertex, '
     'with opposite signs at the two ends of every dual edge; the boundary of the boundary of every dual chain vanishes, also across the boundary. A complex that is not oriented has no dual, and asking for one is an error.',
     ['inputs', 'configurations'], 'all oriented sub-complexes, vertex numberings and cube symmetries, all dual chains and forms',
     'The tests check the dual of a single cube and simplex; orientation conventions on the boundary depend on the vertex order.',
     [TD, TP], [dict(name='Dual.matrices block structure, selectors', where=TD), dict(name='boundary orientation', where=TP)])
prop('C06', 'Subdivisions refine a complex exactly and carry chains across',
     'Barycentric, cubical, centre-insertion, loop (direct or not) and quad-to-triangle subdivision of any complex produce exactly the children they define (each once, over a contiguous range of vertices), a valid chain complex that refers to its parent, '
     'and, where the parent is oriented, an oriented complex of the same boundary. '
     'The transfer operators contain a one for every fine element inside a coarse element of the same dimension and nothing else, commute with the boundary operator, and have dual counterparts that also cover the boundary.',
     ['inputs', 'configurations'], 'all local orientations, numberings and cube symmetries, all chains and forms carried across',
     'The tests print subdivided meshes and plot them; no test compares the children, orientation or transfers for more than one numbering.',
     [TS, TC, TP, TD], [dict(name='subdivide_fundamental / subdivide_cubical', where=TS + ', ' + TC), dict(name='subdivide_loop(_direct), transfer matrices', where=TS), dict(name='subdivide_simplicial', where=TC), dict(name='dual transfer matrices', where=TD)])
C = 'pycomplex/complex/'
CB, CC, CR, CS, CE = C + 'base.py', C + 'cubical.py', C + 'regular.py', C + 'simplicial/base.py', C + 'simplicial/euclidian.py'
SY = 'pycomplex/synthetic.py'

prop('C07', 'Product complexes and regular grids are products of their factors',
     'The cells of a product of cubical complexes are exactly the products of the cells of its factors, in the order and orientation of the factors; its boundary operator obeys the product rule, its vertices and cell positions are the concatenated positions, '
     'its Euler characteristic is the product, and it is oriented and closed exactly when its factors are. '
     'Grids of every shape, single cubes and simplices, cross polytopes and the other regular polytopes, cylinders and circles have the cells, positions and orientation that their definition implies, independent of how products are grouped.',
     ['inputs', 'configurations'], 'all orientations and numberings of the factors, all grid shapes, all vertex positions',
     'The tests multiply a few fixed grids and only print or plot the result.',
     [TC, CC, SY], [dict(name='TopologyCubical.product', where=TC), dict(name='ComplexCubical.product', where=CC), dict(name='n_cube_grid, n_cube, n_simplex, n_cube_dual, cylinder, icosahedron, hexacosichoron', where=SY)])
prop('C08', 'Averages, degrees and incidences count every incident element once',
     'The averaging operators of primal and dual topologies give every element the plain mean over all of its vertices (or all of its incident n-elements), including the boundary elements of the dual. '
     'The degree of an element is the number of n-elements around it, whatever that number is, and the accumulated and direct incidence matrices relate exactly the elements that contain each other.',
     ['inputs', 'configurations'], 'all forms, local orientations and sub-complexes, every number of elements around a vertex',
     'The tests use the operators inside larger computations on meshes of low degree and compare nothing.',
     [TB, TP, TD, 'pycomplex/sparse.py'], [dict(name='accumulated_operators / averaging_operators / degree', where=TB), dict(name='normalize_l1', where='pycomplex/sparse.py')])
GE, GR, GS, ML, MC = 'pycomplex/geometry/euclidian.py', 'pycomplex/geometry/regular.py', 'pycomplex/geometry/spherical.py', 'pycomplex/math/linalg.py', 'pycomplex/math/combinatorial.py'

prop('C09', 'Euclidean simplex geometry is exact in every dimension and location',
     'Signed and unsigned volumes of simplices are the determinant formulas divided by n!; (weighted) circumcenters lie in the plane of the simplex at equal (power) distance from all corners, and barycentric circumcenters sum to one, reproduce that point, and do not depend on where the simplex lies or how large it is; a simplex counts as well centered exactly when they are all positive. '
     'Segment normals are orthogonal, oriented and of the length of the segment measure, simplex normals are unit vectors pointing from each face to its corner, gradients have the measure of the face as length, and triangle angles are the angles between the edges. '
     'All of them treat arrays of simplices as one simplex at a time, and refuse shapes that are no simplices.',
     ['inputs'], 'all corner positions, weights, offsets and scales, integer or float, single simplices or arrays',
     'The tests evaluate random simplices once near the origin and compare to themselves.',
     [GE, ML], [dict(name='signed_volume, unsigned_volume, circumcenter*', where=GE), dict(name='segment_normals, simplex_normals, simplex_gradients, triangle_angles', where=GE), dict(name='pinv', where=ML)],
     note='the numerical rank of a simplex is assumed to equal its exact rank (singular values within a factor 1e4 of each other)')

prop('C10', 'Metrics and hodges are the exact circumcentric and regular measures',
     'The primal metric of a complex holds the measure of every element; the dual metric of a (weighted) simplicial complex is the signed measure of its circumcentric (power) dual, that of a regular grid the product of half the extents of the cubes around an element, so that dual measures add up to the volume; points measure one. '
     'Hodges are the ratios of the two in both directions, the closed dual metric appends the metric of the boundary (which is itself right), a complex reports being well centered, pairwise delaunay and positive exactly when it is, and triangle areas, vertex areas and cotangent edge ratios of triangle meshes agree with the definitions.',
     ['inputs', 'configurations'], 'all vertex positions around acute, obtuse, folded and closed meshes, all vertex weights, all layer spacings, all parts of a grid',
     'The tests plot metrics or check the sum for one random mesh; signs outside of well centered meshes and boundaries are not compared to anything.',
     [CE, CR, CB, GR], [dict(name='metric, primal_barycentric', where=CE), dict(name='ComplexRegularMixin.metric, hypervolume', where=CR + ', ' + GR), dict(name='hodge_DP, hodge_PD, dual_metric_closed, is_pairwise_delaunay', where=CB), dict(name='compute_edge_ratio, compute_vertex_areas', where=CE)],
     note='centers of faces below the top level are assumed to lie inside of them: the metric is only defined to be signed at the top level')

XT, XC, XO, XB, XL, XM, XE, XD, XU = ['pycomplex/stencil/%s.py' % n for n in ('topology', 'complex', 'operator', 'block', 'linear_system', 'multigrid', 'equation', 'diffusion', 'util')]

prop('C11', 'Moving, cutting, joining and converting complexes keep what they should',
     'Translating, scaling, transforming (also affinely) or copying a complex changes exactly the vertex positions and keeps topology, weights and type, and leaves the original alone; subsets and boundaries carry the positions and weights of the elements they refer to, casts keep the geometry and refuse complexes of the wrong dimension, and subdivisions place every new vertex at the position of the element it stands for. '
     'Clipping a triangle mesh by any plane keeps the part on the near side with its area, moments, orientation and closedness, and merely splitting it keeps all of it with no triangle across the plane. '
     'Extruding an oriented surface with boundary to a displaced copy gives a closed oriented solid, with the volume that is swept.',
     ['inputs', 'configurations'], 'all positions, planes, maps, weights and selections; every way in which a plane can separate the vertices',
     'Tests clip and extrude one or two meshes and look at a bounding box or nothing at all.',
     [CB, CC, CE], [dict(name='copy, translate, transform, affine_transform, scale, select_subset, boundary', where=CB), dict(name='clip, extrude, subdivide_loop, as_2, as_3', where=CE), dict(name='as_11 .. as_44, to_simplicial, subdivide_cubical', where=CC)])
prop('C12', 'Smoothing and subdivision move vertices to the means they define',
     'Smoothing moves every vertex to the mean of the centers of the crease elements around it, of the lowest dimension that has any (all elements of the top dimension count as creases, and so a vertex crease stays where it is); '
     'subdivision puts a vertex in the center of every element (of every edge, for loop subdivision), carries creases over to the elements they are split into, and smooths on request. '
     'The operators give the same positions as the direct computation on cubical complexes, and with corner means in place of circumcenters on triangle meshes.',
     ['inputs', 'configurations'], 'all vertex positions and all crease chains (of any sign) on curves, surfaces and solids',
     'The tests only print and plot smoothed meshes for one choice of creases.',
     [CB, CC, CE, TC, TS], [dict(name='smooth, smooth_operator', where=CB), dict(name='subdivide_cubical, subdivide_operator', where=CC), dict(name='subdivide_loop, subdivide_loop_operator', where=CE)])
prop('C13', 'Picking, sampling and velocities on simplicial complexes are exact',
     'For every point of a pairwise Delaunay mesh (with or without vertex weights, well-centered or not), picking returns a simplex or fundamental domain that holds it with its barycentric coordinates, whatever the initial guess, and picking a dual element returns the vertex nearest in (power) distance. '
     'Sampling a primal 0-form is linear interpolation between the corners of the simplex, and sampling a dual 0-form that between its (weighted) averages over the elements of the fundamental domain. '
     'The dual velocity computed from the fluxes of a constant vector field along the dual edges is that field (its tangential part, on surfaces), on simplices and regular grids alike.',
     ['inputs', 'configurations'], 'all query points, initial guesses, vertex weights, forms and constant fields, on the given meshes',
     'The tests pick random points on one mesh and compare against brute force; guesses, weights and sampled values are not checked, and the comparison of velocities has a relative tolerance of 1e9.',
     [CS, CE, CB], [dict(name='pick_primal, pick_dual, pick_fundamental, sample_primal_0, sample_dual_0, remap_boundary', where=CS), dict(name='weighted_average_operators, dual_flux_to_dual_velocity', where=CB)])
prop('C14', 'Picking and sampling on regular grids find the cell that holds a point',
     'For every query point, picking a regular grid (or any part of one) returns a cube, fundamental domain or dual cell that holds the point (the nearest one outside of the grid) with the local coordinates of the point in it, whatever the initial guess. '
     'Sampling a primal 0-form interpolates multilinearly between the corners of the cube, and sampling a dual 0-form interpolates between its averages over the elements of the fundamental domain; both are constant beyond the boundary and work for vector valued forms.',
     ['inputs', 'configurations'], 'all query points, initial guesses, selections of cubes, grid spacings and forms',
     'The tests pick one batch of random points on one 2d grid without a guess; sampling and fundamental domains of regular grids are not tested.',
     [CR, TC, TD], [dict(name='pick_primal, pick_fundamental, pick_dual', where=CR), dict(name='sample_primal_0, sample_dual_0, average_dual', where=CR), dict(name='cubical_domains', where=TC)])
prop('C15', 'Areas, volumes, normals and centers of surfaces are the exact integrals',
     'Triangle normals are twice the vector area and vertex normals their sums over the triangles around, which is the gradient of the enclosed volume; areas, lengths and vertex areas are the exact measures and add up. '
     'The volume of a closed surface (and the area of a closed curve in the plane) is the signed measure it encloses, independent of location; the center of mass is the centroid of the enclosed solid, whatever its shape and location. '
     'Open curves enclose no area, and asking for one is an error.',
     ['inputs'], 'all vertex positions, translations and orientations of closed and open surfaces',
     'Tests only print such numbers for a cube.',
     [CE, CC], [dict(name='triangle_normals, vertex_normals, vertex_areas, edge_lengths, volume, center_of_mass, area', where=CE), dict(name='ComplexCubical1Euclidian2.volume', where=CC)])
prop('C16', 'Stencil forms on the torus obey the exterior calculus of the explicit grid',
     'On a periodic grid of any shape and dimension, the implicit derivative of an n-form is the signed sum of differences over the faces of each (n+1)-cube, the dual derivative is its exact adjoint, applying either twice gives zero and derivatives integrate to zero over the torus. '
     'Averages of 0-forms are the mean over the corners of each cube, hodges are the ratio of dual to primal measure with exact inverses, and positions, scales and shapes of the complex and its coarser and finer twins agree. '
     'Sampling a 0-form interpolates linearly between the corners of the periodic cell that holds the point, for any point in space.',
     ['inputs', 'configurations'], 'all forms, all shapes of periodic grids (also with a single cell in a direction), all scales, all sample points',
     'The tests apply the operators to one random form on even shapes and sample along one line.',
     [XT, XC, XU], [dict(name='primal, dual, averaging_operators_0', where=XT), dict(name='generate', where=XU), dict(name='hodge, sample_0, coarse, fine', where=XC)])

prop('C17', 'Sums, products, transposes and simplifications of operators keep their meaning',
     'The product of operators acts as the one after the other and the sum as the sum of both, whatever kinds are combined (general, symmetric, diagonal, identity, zero, derivative, hodge) and however they are grouped; simplification never changes the action, also for coefficients that are very small. '
     'Transposition reverses products, distributes over sums and gives the exact adjoint, diagonal operators have exact inverses, and dense and flattened scipy versions act as the operator itself. Operands of unmatched shapes are refused.',
     ['inputs', 'operation sequences'], 'all operator expressions over all kinds of operators, all coefficients and vectors',
     'The tests multiply a few fixed operators; simplification rules depend on coefficients and on what stands next to each other.',
     [XO], [dict(name='ComposedOperator, CombinedOperator, simplify, is_zero', where=XO), dict(name='DiagonalOperator.simplify, inverse', where=XO), dict(name='to_dense, aslinearoperator', where=XO)])

prop('C18', 'Block operators and cochain systems act as the matrices they are laid out as',
     'Block arrays flatten and unflatten losslessly and do arithmetic block by block, whatever the shapes of their blocks; block operators act on them, multiply, add, transpose and flatten as the corresponding block matrices, and assigning a block changes that block only. '
     'The canonical system of a stencil complex couples every form to itself and to its neighbours by hodges and derivatives and is symmetric; any subsystem holds exactly the selected rows and columns with the matching right hand side, and normal equations are the products with the transpose, with the exact diagonal for every coefficient field.',
     ['inputs', 'configurations', 'operation sequences'], 'all block layouts, block shapes, vectors, coefficient fields and subsystem selections',
     'The tests check shapes and one two-block roundtrip; layouts with more blocks, equal shapes, lists of rows or rectangular systems are not exercised.',
     [XB, XL], [dict(name='BlockArray, BlockOperator', where=XB), dict(name='System.canonical, __getitem__, normal, normal_ne', where=XL), dict(name='BlockOperator.diagonal', where=XB)])

prop('C19', 'Grid transfers and multigrid cycles are consistent',
     'Refinement interpolates every form linearly along its normal directions, coarsening is its exact adjoint up to the ratio of cells, both keep constants and commute with the derivatives, for forms in any memory layout; dual forms are restricted as densities. '
     'Multigrid cycles keep a solution and otherwise are the recursive smooth-correct-smooth scheme; jacobi and block gauss-seidel relaxations of first order systems keep solutions, leave their input alone and use the exact diagonals. '
     'Every formulation of the diffusion problem has its defining residual, and coarse problems are the diffusion problems of the coarsened coefficients.',
     ['inputs', 'configurations', 'operation sequences'], 'all forms, even grids, coefficient fields, guesses, right hand sides and operators of a hierarchy',
     'The tests transfer constants only and run one solver without looking at the result.',
     [XC, XT, XM, XE, XD, XL], [dict(name='transfers, coarsen, refine, smoothers', where=XT + ', ' + XC), dict(name='v_cycle, solve_v_cycle, solve_full_cycle', where=XM), dict(name='jacobi, NR_BLOCK_GS, NE_BLOCK_GS, overrelax', where=XE), dict(name='Diffusion.formulate, coarse', where=XD)])

PB, PS, LS, FS = 'pycomplex/block.py', 'pycomplex/sparse.py', 'examples/linear_system.py', 'examples/flow/stream.py'

prop('C20', 'Blocked matrices and arrays are the matrices and vectors they are blocks of',
     'A matrix of sparse blocks and an array of dense blocks keep their blocks apart whatever their sizes, and know their shape. Merging, splitting, transposing, slicing, adding and multiplying them, taking diagonals and absolute row or column sums gives what the merged matrices and vectors would give, and leaves the operands as they were. '
     'Normalisation, inversion of diagonals and empty or unit patterns of sparse matrices are exact.',
     ['inputs', 'configurations', 'operation sequences'], 'all block layouts and block sizes, all entries, formats of the blocks and orders of operations',
     'The only exercise in the repository prints one matrix with two differently shaped blocks.',
     [PB, PS], [dict(name='BlockArray, SparseBlockMatrix, DenseBlockArray', where=PB), dict(name='normalize_l1, inv_diag, ones_like, sparse_zeros', where=PS)])

prop('C21', 'First order systems hold the equations of the cochain complex',
     'The canonical system of any oriented complex, closed or with boundary and of any embedding, couples each form to itself by its hodge and to its neighbours by derivatives, including the dual boundary; its symmetric variant is symmetric. '
     'Boundary conditions, sources and constraints end up in exactly the equation and at exactly the elements they are set for; subsystems, normal equations, row balancing and rescaling of degrees keep the equations equivalent, and so does eliminating variables with a diagonal equation. '
     'Solutions and residuals are handed back per variable and per equation.',
     ['inputs', 'configurations', 'operation sequences'], 'all hodges, metrics, boundary terms, sources and unknowns; all complexes; all choices of variables to slice or eliminate',
     'No test assembles or solves one of these systems.',
     [LS], [dict(name='System.canonical, laplace, SystemMid.canonical', where=LS), dict(name='set_dia_boundary, set_off_boundary, set_rhs, set_rhs_boundary, set_sum_boundary', where=LS), dict(name='eliminate, normal, balance, block_balance, __getitem__', where=LS)])

SP, GP = 'pycomplex/complex/simplicial/spherical.py', 'pycomplex/geometry/spherical.py'

prop('C22', 'Complexes on spheres: picking, sampling, metric and conversions',
     'For every direction in a spherical complex (of any dimension, closed or with boundary, with simplices of different sizes), picking returns a simplex, fundamental domain or nearest vertex that holds it with its coordinates, whatever the initial guess; sampling of primal and dual 0-forms interpolates accordingly. '
     'Primal and dual lengths and areas are those on the sphere, scale with every radius, and add up to the measure of the sphere; centers are on the sphere at equal (power) distance of all corners. '
     'Edge centers and intersections of great circles, subdivision, and conversions to and from euclidian meshes keep positions, radius and weights.',
     ['inputs', 'configurations'], 'all directions, initial guesses, forms, radii and vertex weights on the given meshes; coordinates of edges in a box',
     'The tests pick random points on regular subdivisions, of which all simplices have nearly the same size, and do not check what is picked; radii, weights and sampled values are not tested.',
     [SP, GP, CS, CB], [dict(name='pick_primal, pick_dual, pick_fundamental, metric, primal_position', where=SP), dict(name='edge_length, triangle_area, edge_circumcenter, intersect_edges', where=GP), dict(name='sample_primal_0, sample_dual_0', where=CS)])

prop('C23', 'Small dense algebra, permutations, index helpers and conjugate gradients',
     'Dot products, normalisation (along any axis and in any norm, zero vectors left zero on request), cofactors, inverses, pseudo inverses and null vectors of small matrices are exact, one matrix at a time for arrays of them, and leave their input untouched; the rotation of a plane given by two orthonormal vectors takes the second to the first and keeps what is orthogonal to both, and the angle of a rotation is recovered from it. '
     'Permutations and subsets are enumerated each once, permutations with their parity; sorting along an axis, relative permutations, lookups of elements and the matrices of signed incidences, selections and transfers do what their indices say, for every numbering. '
     'Conjugate gradients solve positive definite systems, also within the subspace they are projected to, and leave the guess alone.',
     ['inputs'], 'all matrix entries, orders, labels, orientations and selections within the bounds',
     'The tests print permutations and subsets; the algebra and index helpers are only used in passing.',
     [ML, MC, TU, 'pycomplex/solvers.py'], [dict(name='dot, normalized, adjoint, null, inverse, pinv, rotation_from_plane, angle_from_rotation', where=ML), dict(name='permutations, combinations', where=MC),
                                           dict(name='sort_and_argsort, relative_permutations, topology_matrix, element_indices, selection_matrix', where=TU), dict(name='solve_cg', where='pycomplex/solvers.py')])

prop('C24', 'Complexes do not change, and answers do not depend on history',
     'Whatever is asked of a complex, topology, grid, sphere or stencil complex, and in whatever order, gets the answer a fresh copy gives: asking before or after anything else, or asking again, makes no difference. '
     'Answers handed out earlier keep their values whatever is asked later, and the complex itself stays as it was made. '
     'Arrays handed in (query points, guesses, forms, selections, transformations, creases) are not modified.',
     ['operation sequences', 'histories'], 'each query before and after every other query (thorough: all sequences of two), all values of forms, symbolic vertex coordinates and radii',
     'Every test builds a complex and asks it a few things in one order; nothing is asked twice or compared with an earlier answer.',
     [CB, CR, CS, CE, SY, TP, TB, TD, 'pycomplex/stencil/topology.py'],
     [dict(name='cached_property results, copy, select_subset, transform, boundary', where=CB), dict(name='pick_*, sample_*', where=CS), dict(name='matrices, incidence, averaging operators', where=TB)])
prop('C25', 'Answers do not depend on numbering, placement, direction or unit',
     'Renumbering the vertices, reordering the elements, reordering the corners of elements (or reversing all orientations), and for grids choosing other axes for the cubes, gives the same complex under other names: the same elements, boundaries, '
     'components, degrees, positions, primal and dual metrics, hodges, normals, areas, verdicts, refinements, picked elements, samples and velocities. '
     'Moving, rotating or rescaling all positions moves, rotates and rescales points and vectors accordingly, multiplies metrics by the matching power of the unit, and leaves everything else as it is. '
     'On the periodic grids of the stencil complex, shifts and exchanges of axes commute with all derivatives, averages, hodges, smoothers, coarsening and refinement.',
     ['semantic invariants', 'relational properties'],
     'curves, triangle meshes, tetrahedra, grids of 1-3 dimensions, spheres and stencil complexes of up to 8 elements; any exchange of two vertices, rotation of the list of elements, even permutation of corners; any shift, scale and rotation; any form',
     'Tests use one numbering and one placement of each mesh, and compare nothing with a renumbered or moved copy.',
     ['pycomplex/topology/base.py', 'pycomplex/topology/simplicial.py', 'pycomplex/topology/cubical.py', CB, CS, CE, CR, 'pycomplex/complex/cubical.py', 'pycomplex/complex/simplicial/spherical.py', 'pycomplex/stencil/complex.py'],
     [dict(name='metric, pick_*, sample_*, subdivide_*, smooth, is_well_centered', where=CE), dict(name='fundamental_domains, averaging operators, split_connected_components', where=TB), dict(name='StencilComplex operators', where='pycomplex/stencil/complex.py')])
prop('C26', 'Derivatives, metrics and positions fit together as in continuous calculus',
     'On every oriented complex, the derivatives of the positions are the edge vectors, and those of the integrals of linear vector fields are the integrals of their curl and divergence; fluxes of constant fields out of every element vanish, and flux through the boundary is the divergence inside. '
     'Primal and dual elements of each dimension together span the volume (times a binomial coefficient), the derivative of the positions of dual vertices is the dual length along the normal of each facet (weighted or not), linear functions are harmonic at interior vertices and in every primal element, '
     'their energy is that of the continuum, and the laplacian of the positions of a surface is the gradient of its area. '
     'Dual fluxes of a linear function give its gradient as velocity in every element of flat simplicial meshes and regular grids.',
     ['semantic invariants', 'algebraic laws'],
     'curves, triangle meshes, surfaces, tetrahedra, grids of 1-3 dimensions of up to 20 elements, of either orientation, any position of a vertex, spacing, linear function and vector field',
     'Tests plot solutions or print norms; derivative, hodge and position are never combined in an identity.',
     [TB, 'pycomplex/topology/simplicial.py', TD, CB, CE, CR],
     [dict(name='metric, hodge_DP, hodge_PD, dual_position, dual_flux_to_dual_velocity', where=CB), dict(name='matrices of the dual', where=TD), dict(name='metric', where=CE)])
