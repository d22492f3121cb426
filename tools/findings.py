"""writes known_findings.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# defects in examples/, which counts as test code and is therefore not repaired
OPEN = [
    ('C21-closed', 'C21', 'canonical-closed/(loop|tetsurface)', 'AttributeError', 'System.canonical of a closed complex (loop, surface of a tetrahedron) raises an AttributeError: topology.boundary is None'),
    ('C21-embedded', 'C21', 'canonical-embedded/(curve2|fold)', 'IndexError', 'System.canonical of a curve in 2d or a surface in 3d raises an IndexError: the number of variables is taken from the embedding'),
    ('C21-source', 'C21', 'source/(path|two|tet|box21)', 'ValueError', 'set_rhs on a variable with dual boundary elements raises a ValueError: the selector is not transposed'),
    ('C21-chain', 'C21', 'chain/(path|two|tet|box21)', 'target of the sum: block .*', 'set_sum_boundary with an integer chain rounds the prescribed sum to an integer'),
    ('C21-select', 'C21', 'select/(two|tet)', 'ValueError|IndexError|subsystem.*', 'a subsystem selected by lists of equations and variables pairs them up'),
    ('C21-eliminate', 'C21', 'eliminate/tet/.1, 2./.0, 3.', 'eliminated.*', 'eliminate couples retained variables of equal size by an identity (tetrahedron: fluxes and their neighbours)'),
]
FIXED = [
    ('C01', 'e8afc2f', 'the self check skipped the last pair of incidence matrices, so a broken 2-dimensional complex was accepted'),
    ('C03', '9aa9eba', 'complexes whose last elements share no facet with any other got too few relative parities, and fixing their orientation failed'),
    ('C04', 'fbb6b4b', 'the boundary of an open one-dimensional simplicial complex raised an AssertionError (and its selectors silently ignored the boundary)'),
    ('C04', '58dc20c', 'asking a zero-dimensional complex whether it is closed raised an IndexError'),
    ('C05', '3f0f13a', 'the edges of the boundary of a 3-dimensional complex were oriented independently of the parent: boundary of a boundary of a dual chain did not vanish'),
    ('C05', '803e39b', 'one end of a one-dimensional complex got a dual vertex of the wrong sign: the dual derivative of a constant did not vanish'),
    ('C06', 'c1c890e', 'direct loop subdivision took the vertices of the first triangle only for its coarse-to-fine relation'),
    ('C06', '6a53490', 'direct loop subdivision oriented the new edges inside a face inconsistently: not a chain complex'),
    ('C06', '2f1ec02', 'cubical subdivision of an oriented tetrahedral complex came out unoriented'),
    ('C04', 'c96594b', 'two elements sharing two facets with opposing signs (Moebius strip of two quads) were labelled as disconnected, and every vertex as non-manifold'),
    ('C08', '3ffb9b0', 'the degree of a vertex with more than 127 incident elements overflowed to a negative number'),
    ('C08', '6dee562', 'a vertex at which 256 outgoing edges meet was missing from the boundary'),
    ('C09', '76d8931', 'barycentric circumcenters of simplices far from the origin or of small size were wrong: the cutoff of the singular values depended on location and size'),
    ('C10', 'b3ef34d', 'the signs of the metric of weighted simplicial complexes ignored the weights'),
    ('C09', '2b206bc', 'the pseudo inverse of a matrix with fewer rows than columns raised a ValueError'),
    ('C09', '56d5d2d', 'the construction of circumcenters of an array of simplices raised an error'),
    ('C09', '3cb4671', 'the normals of segments with integer corners were truncated to integers, and could be off by one'),
    ('C10', 'e4d15b2', 'the metric of the boundary of a regular grid raised an error in 1d and from 3d up'),
    ('C10', 'b1f315b', 'the boundary of a weighted complex lost its weights'),
    ('C10', 'ef384c1', 'the closed dual metric of a one-dimensional simplicial complex raised a ValueError (fundamental domains of its zero-dimensional boundary)'),
    ('C17', 'd490726', 'diagonal operators (products of hodges) with entries below 1e-8 were simplified to zero, and those within 1e-5 of one to the identity'),
    ('C17', '588fc1b', 'the scipy linear operator of a stencil operator raised an error for forms of any shape, and did not exist for products'),
    ('C18', '364a173', 'block arrays of more than two blocks could not be restored from their flat version'),
    ('C18', '98d2836', 'arithmetic on block arrays of equally shaped blocks (and of a single block) raised an error'),
    ('C18', '35eab98', 'the shape of block operators (and whether they are square) raised an IndexError'),
    ('C18', '3dc2669', 'the flattened action of a block operator swapped domain and range: rectangular or permuted systems failed'),
    ('C18', 'bcbcca1', 'assigning an array with a single zero (or one) to a block array stored an operator instead'),
    ('C18', 'd4250ca', 'a subsystem selected by a list of rows paired up rows and columns, and lost the right hand side matrix'),
    ('C19', '5959f53', 'refining a form that is not contiguous in memory raised a BufferError'),
    ('C19', '52837dc', 'allocating the unknowns or the right hand side of a stencil system raised an AttributeError'),
    ('C20', '2ad57ab', 'equally shaped blocks (or a single block) of a block array were merged into one array: splitting, transposing, norms and products raised errors or came out wrong'),
    ('C20', '5b3b3c2', 'the shape of two-dimensional block arrays was that of the arrangement of blocks, and asking whether a matrix is square raised an error'),
    ('C20', '43da9b3', 'the diagonal block matrix of blocks of different sizes could not be merged or multiplied'),
    ('C20', 'f20c1cf', 'merging a block matrix turned its blocks into arrays with elementwise products, so that anything computed afterwards was wrong'),
    ('C11', '499d363', 'affine transformations of complexes raised a TypeError (and only knew two dimensions)'),
    ('C11', 'eddf2c0', 'the conversion of a cubical curve to a simplicial curve raised an ImportError'),
    ('C15', 'd0b88e5', 'the center of mass of a solid was wrong unless the solid is star-shaped around the origin (unsigned volumes)'),
    ('C15', '2a025d0', 'vertex areas of triangle meshes added up to twice the area'),
    ('C06', 'cb704ab', 'subdividing a simplicial curve by inserting a vertex on each edge raised an IndexError'),
    ('C14', '0678cb0', 'a guessed cube was kept although the point lies beyond its far side'),
    ('C14', '18faa27', 'guessed fundamental domains raised an UnboundLocalError when right, and were kept although the point lies beyond their far side'),
    ('C14', '334b090', 'samples of primal 0-forms on one-dimensional grids had an extra axis'),
    ('C12', 'b76fb05', 'the loop subdivision operator also created vertices on triangles: too many rows, and an error when smoothed'),
    ('C10', '2f47da5', 'vertex weights that move the center of a line segment out of it gave the wrong end a negative sign: negative lengths and dual lengths, and a wrong verdict on being pairwise delaunay'),
    ('C13', 'edb354e', 'dual velocities on regular grids were those of the reversed flux'),
    ('C22', 'cec9bcd', 'points on spheres with simplices of different sizes were not picked in the simplex that holds them'),
    ('C22', '630c6b8', 'subdivided complexes on spheres of any radius had radius one'),
    ('C22', '6941b8a', 'the boundary of a triangulated part of a sphere raised an AssertionError, and other boundaries on spheres of any radius had radius one'),
    ('C22', '58dd703', 'loop subdivisions of weighted spheres kept the weights of the coarse vertices, too few for the fine ones'),
    ('C22', '87ad058', 'conversions between triangle meshes and spheres dropped the vertex weights'),
]
d = dict(findings=[dict(id=i, property=p, obligation=o, assertion=a, what=w, status='open') for i, p, o, a, w in OPEN],
         fixed=['fixed: property=%s %s %s' % f for f in FIXED])
json.dump(d, open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
