"""writes /verif/properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

S3, S2, T = 'objects/CSCG/_3d/', 'objects/CSCG/_2d/', 'objects/miUsGrid/triangular/'
p('C01', 'Applying the discrete exterior derivative twice gives exactly zero',
  'For every discrete form (scalar, edge or face form in 3D; inner- or outer-oriented scalar form in 2D and on triangle meshes), whatever its coefficients, the derivative of its derivative is the zero form on every element, and the derivative of a constant scalar form is zero. This holds for every polynomial degree (also different per direction), element layout and for hybrid as well as conforming forms.',
  ['inputs', 'configurations'], 'all cochains, all degrees/layouts/mesh families, hybrid or conforming',
  'tests look at a few random cochains or matrices of one degree; the sign pattern of an incidence matrix must be right for every cochain and every degree combination',
  [S3 + 'spaces/base/incidence_matrix.py', S2 + 'spaces/base/incidence_matrix.py', T + 'space/incidence_matrix.py', 'objects/CSCG/base/forms/standard/coboundary.py'],
  [('incidence matrices of grad, curl, div, rot', S3 + 'spaces/base/incidence_matrix.py'), ('coboundary applied to the local cochain', 'objects/CSCG/base/forms/standard/coboundary.py')],
  ['form.coboundary()', 'form.coboundary.incidence_matrix'])
p('C02', 'Reduction commutes with differentiation (discrete Stokes theorem)',
  'Reducing a smooth field to discrete degrees of freedom and then applying the discrete derivative gives the same coefficients as reducing the analytical gradient, curl, divergence or rot of the field, up to quadrature and rounding error. This holds for every field, on straight, stretched and curved elements, in 3D, in 2D for both orientations, and on triangle meshes.',
  ['inputs', 'configurations'], 'all polynomial fields up to a degree with arbitrary coefficients; all meshes/degrees in the bounds',
  'a test reduces one trigonometric field on one mesh; a wrong term can vanish for that field, on orthogonal elements, or at equal degrees in the directions',
  [S3 + 'forms/standard/_1s/discretize', S3 + 'forms/standard/_2s/discretize', S2 + 'forms/standard', T + 'forms/standard', 'objects/CSCG/base/forms/standard/coboundary.py'],
  [('discretize (reduction) of k-forms', S3 + 'forms/standard/_1s/discretize/vector/standard.py'), ('coboundary', 'objects/CSCG/base/forms/standard/coboundary.py')],
  ['form.discretize()', 'form.cochain.local', 'form.coboundary()'])
p('C03', 'Reduction inverts reconstruction on the discrete space',
  'Reconstructing a discrete form as a field and reducing that field again returns the original coefficients, for every coefficient vector; equivalently, fields that lie in the discrete space are reproduced exactly at every point of every element. This holds for all form degrees and both orientations in 2D, 3D and on triangles, on orthogonal and curved elements.',
  ['inputs', 'configurations'], 'all cochains, all polynomial fields of the space, all evaluation grids in the bounds',
  'tests compare one sampled field on a grid within a convergence tolerance, which hides wrong metric terms of high order and mixed-up components',
  [S3 + 'forms/standard/_0s/reconstruct.py', S3 + 'forms/standard/_1s/reconstruct.py', S3 + 'forms/standard/_2s/reconstruct.py', S3 + 'forms/standard/_3s/reconstruct.py', S2 + 'forms/standard', T + 'forms/standard'],
  [('reconstruct on a mesh grid', S3 + 'forms/standard/_1s/reconstruct.py'), ('discretize', S3 + 'forms/standard/_1s/discretize/vector/standard.py')],
  ['form.reconstruct(...)', 'form.discretize()', 'form.cochain.local'])
p('C04', 'Basis functions are nodal / histopolant at every point, for every node family',
  'At every point of the reference interval the nodal basis of a polynomial space sums to one, is one at its own node and zero at the others; each edge basis integrates to one over its own cell and to zero over the others, and the derivative of a nodal expansion equals the edge expansion of the coefficient differences. Multi-dimensional bases of all forms are the corresponding products in the order of the local numbering.',
  ['inputs', 'configurations'], 'all evaluation points in [-1,1], all coefficients, node families and degrees in the bounds',
  'tests check one grid of points for one or two degrees',
  ['objects/CSCG/base/spaces/_1d_basis/polynomials.py', S3 + 'spaces/base/do.py', S2 + 'spaces/base', T + 'space'],
  [('lagrange_basis, edge_basis', 'objects/CSCG/base/spaces/_1d_basis/polynomials.py'), ('products of 1d bases', S3 + 'spaces/base/do.py')],
  ['space.basises[i].node_basis(x)', 'space.basises[i].edge_basis(x)', 'form.do.evaluate_basis_at_meshgrid'])
p('C05', 'Quadrature rules are exact up to their degree',
  'A quadrature rule of a given category and degree integrates every polynomial up to its exactness degree exactly over [-1,1] (Gauss 2p+1, Lobatto 2p-1), with positive weights summing to the interval length and nodes in increasing order. The multi-dimensional rules, in all of their meshgrid and ravelled variants, integrate every polynomial of those degrees over the square and the cube exactly.',
  ['inputs', 'configurations'], 'all polynomials up to the exactness degree with arbitrary coefficients; degrees in the bounds',
  'tests integrate a few functions at a few degrees',
  ['components/quadrature.py'], [('Quadrature', 'components/quadrature.py')], ['Quadrature(p, category).quad', 'Quadrature(...).quad_ndim', 'Quadrature(...).quad_ndim_ravel'])
p('C06', 'Jacobians, inverses and metrics are those of the mapping, everywhere',
  'For every domain type and shape parameter and at every point of every element, the reported Jacobian matrix is the derivative of the element mapping, the inverse Jacobian is its inverse, and determinant, metric and inverse metric tensors follow from it. Element-wise, region-wise, vectorised, cached and quadrature-point variants all report the same values.',
  ['inputs', 'configurations'], 'all reference points, all shape parameters in the bounds, all listed domains',
  'tests evaluate at a few random points of a few domains with default parameters',
  [S3 + 'mesh/domain/regions', S3 + 'mesh/elements', S2 + 'mesh/domain/regions', S2 + 'mesh/elements', T + 'mesh/elements'],
  [('interpolation (transfinite, crazy, ...) mappings and their Jacobians', S3 + 'mesh/domain/regions/region/interpolations'), ('element coordinate transformation', S3 + 'mesh/elements/coordinate_transformation')],
  ['mesh.elements[i].coordinate_transformation.mapping', '...Jacobian_matrix', '...inverse_Jacobian_matrix', '...metric_matrix'])
p('C07', 'Mass matrices and inner products are the integrals of the reconstructed fields',
  'The element mass matrix of two discrete forms applied to their coefficients equals the integral over the element of the product of the two reconstructed fields, for all coefficients; it is symmetric, and inverse mass matrices are true inverses. Wedge products, inner products with vector fields, boundary integrals and the trilinear cross-product/convection operators likewise equal the integrals they stand for.',
  ['inputs', 'configurations'], 'all pairs (triples) of cochains; degrees, meshes in the bounds',
  'tests check symmetric positive definiteness or one number on one mesh',
  [S3 + 'forms/standard/base/operators', S3 + 'forms/standard/_1s/special', S2 + 'forms/standard', T + 'forms/standard'],
  [('local inner product of forms', S3 + 'forms/standard/_1s/main.py'), ('special operators', S3 + 'forms/standard/_1s/special')],
  ['form.matrices.mass', 'form.operators.inner', 'form.operators.wedge', 'form.special.cross_product_*'])
p('C08', 'Global numbering identifies exactly the degrees of freedom that are the same',
  'Two local degrees of freedom in any elements carry the same global number if and only if they are the same geometric node, edge, face or cell (including across region interfaces and periodic boundaries), so that every continuous field reduces to single-valued global coefficients; hybrid forms share nothing. Global numbers run from zero without gaps and the reported number of global degrees of freedom is their count.',
  ['inputs', 'configurations'], 'all meshes, layouts, degrees and forms in the bounds; for every continuous field with arbitrary coefficients',
  'tests compare with stored matrices for a few layouts',
  [S3 + 'forms/standard/base/numbering.py', 'objects/CSCG/base/forms', S3 + 'forms/trace', S3 + 'forms/edge', S2 + 'forms/base', T + 'forms/standard/base/numbering'],
  [('Naive numbering', 'objects/CSCG/_3d/forms/standard/base/numbering.py'), ('gathering matrices', 'tools/elementwiseCache/gathering')],
  ['form.numbering.gathering', 'form.num.global_dofs'])
p('C09', 'Mesh connectivity agrees with the geometry',
  'If an element reports another element across one of its sides, the two sides are the same physical side, point by point, and the relation is mutual; a side reported on the mesh or domain boundary lies on that named boundary. Trace, edge and node elements list exactly the elements and sides that meet there, and every element number corresponds to one region and local position and back.',
  ['inputs', 'configurations'], 'all points of the shared sides, all meshes and layouts in the bounds',
  'tests count elements or check a few neighbours',
  [S3 + 'mesh', S2 + 'mesh', T + 'mesh'],
  [('element map', S3 + 'mesh/main.py'), ('trace/edge/node elements', S3 + 'mesh/trace')],
  ['mesh.elements.map', 'mesh.trace.elements', 'mesh.edge.elements', 'mesh.node.elements', 'mesh.boundaries.range_of_element_sides'])
p('C10', 'Work is partitioned over any number of processes without loss or overlap',
  'For any number of elements and any number of processes every element is owned by exactly one process, ranks are filled in order and loads differ as promised by the chosen distribution method. Helpers that split global index ranges or lists over processes return a partition of them.',
  ['inputs', 'configurations'], 'any number of elements and processes within the bounds, all distribution methods',
  'tests run with the one or few process counts of the machine',
  ['objects/CSCG/base/mesh/base.py', 'components/distributors.py', 'root/config/main.py', T + 'mesh'],
  [('element distribution methods', 'objects/CSCG/base/mesh/base.py'), ('vector distributor', 'components/distributors.py')],
  ['mesh.elements.indices on each rank', 'VectorDistributor', 'DISPATCHING/GROUP_CORES/TREE'])
p('C11', 'Element-wise matrix and vector algebra is ordinary linear algebra',
  'Sums, differences, negation, scaling, products, transposes, block matrices and concatenations of element-wise matrices and vectors give, in every element, exactly the matrices and vectors that ordinary linear algebra gives for the operands, for all entry values. Results do not depend on what was computed or cached before.',
  ['inputs', 'histories'], 'all entry values, expression shapes and evaluation orders in the bounds',
  'caching keys and operator nesting have many combinations; tests try a handful with one set of numbers',
  ['tools/elementwiseCache/dataStructures'], [('EWC matrices and operators', 'tools/elementwiseCache/dataStructures/objects/sparseMatrix'), ('bmat/concatenate', 'tools/elementwiseCache/dataStructures/operators')],
  ['EWC_SparseMatrix[i]', 'EWC_ColumnVector[i]', 'bmat', 'concatenate'])
p('C12', 'Assembly sums exactly the local contributions',
  'The assembled global matrix or vector equals the sum over elements of the local blocks scattered by the gathering matrices, for all entry values, all block structures and both chaining methods; repeated assembly after the entries changed uses the new values. Distributing a global vector back to local coefficients inverts this for conforming coefficients, and global indices found for a local position (or back) are mutually inverse.',
  ['inputs', 'histories', 'configurations'], 'all entry values; block layouts, chaining methods and re-assembly histories in the bounds',
  'tests assemble one system and compare one solution',
  ['tools/elementwiseCache/dataStructures/objects/sparseMatrix/assembler.py', 'tools/elementwiseCache/gathering', 'tools/miLinearAlgebra/dataStructures'],
  [('matrix assembler', 'tools/elementwiseCache/dataStructures/objects/sparseMatrix'), ('chained gathering matrix', 'tools/elementwiseCache/gathering')],
  ['EWC.assembled', 'ChainGatheringMatrix', 'LocallyFullVector.do.distributed_to'])
p('C13', 'Imposed conditions change exactly the requested rows and entries',
  'Customising or adjusting a system - setting a row to identity, a right-hand-side entry to a value, clearing or replacing entries, or applying strong boundary conditions - leaves in the assembled system exactly the requested rows and values and every other entry untouched, for all entry values. Applying a boundary condition from a form makes the solved degrees of freedom on that boundary equal the reduced boundary data.',
  ['inputs', 'configurations'], 'all entry values and boundary data; all customisations in the bounds; shared dofs',
  'tests check a solved benchmark; a shared dof touched twice or a neighbouring row changed is invisible there',
  ['tools/elementwiseCache/dataStructures/objects/sparseMatrix', 'tools/elementwiseCache/dataStructures/objects/columnVector', 'tools/miLinearAlgebra/linearSystem'],
  [('customize / adjust', 'tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize')],
  ['EWC.customize.*', 'EWC.adjust.*', 'LinearSystem.customize'])
p('C14', 'Exact solutions satisfy the equations they are offered for',
  'Every analytical solution shipped with the library satisfies its governing equations (incompressible Navier-Stokes, Euler, Stokes, MHD, Poisson, div-grad, eigen- and port-Hamiltonian problems) at every time and point and for every parameter value: the listed source terms, vorticity, helicity density, gradients, divergences and time derivatives are those of the primary fields.',
  ['inputs'], 'all (t, x, y, z) and parameters in the bounds',
  'a wrong source term only degrades a convergence study; tests cannot distinguish it from discretisation error',
  [S3 + 'exactSolutions', S2 + 'exactSolutions', T + 'exactSolution'], [('exact solution classes', S3 + 'exactSolutions')],
  ['ES.velocity', 'ES.vorticity', 'ES.body_force', '...'])
p('C15', 'Continuous fields obey pointwise vector calculus',
  'Sums, differences, products, dot and cross products, and gradient, curl, divergence, rot, Laplacian and material-derivative combinations of function and field objects equal, at every time and point, the result of the same operation on their values. Fields evaluated at a time use that time even after earlier evaluations at another time.',
  ['inputs', 'histories'], 'all points, times and polynomial/trigonometric fields in the bounds',
  'tests use one field and a few random points',
  ['components/functions', S3 + 'fields', S2 + 'fields', T + 'fields'], [('function wrappers', 'components/functions/timePlus3dSpace/wrappers')],
  ['t3dScalar/t3dVector/t3dTensor operators', 'field.numerical', 'field.do.*'])
p('C16', 'Traces and restrictions pick the right degrees of freedom with the right sign',
  'The trace and selective matrices restrict every discrete form to the degrees of freedom of its sides, so that the trace coefficients equal the reduction of the same field on the trace element, with opposite or equal signs on the two sides as orientation demands. Trace, edge and local-trace forms reconstruct the restricted fields and their mass matrices are the boundary integrals.',
  ['inputs', 'configurations'], 'all cochains / polynomial fields; degrees, meshes in the bounds',
  'tests check norms or shapes',
  [S3 + 'forms/trace', S3 + 'forms/edge', S3 + 'forms/localTrace', S2 + 'forms/trace', S3 + 'spaces/base/trace_matrix.py', S3 + 'spaces/base/selective_matrix.py'],
  [('trace and selective matrices', S3 + 'spaces/base')], ['trace.matrices.trace', 'form.space.trace_matrix', 'trace.discretize'])
p('C17', 'Algebraic dual forms represent the dual pairing and integration by parts',
  'The coefficients of an algebraic dual form are the mass matrix times those of its primal form and converting back returns them, for every coefficient vector. The dual derivative, with the dual trace as boundary term, satisfies discrete integration by parts exactly.',
  ['inputs', 'configurations'], 'all cochains; degrees, meshes in the bounds', 'tests compute one dual field',
  [S3 + 'ADF'], [('dual cochains and coboundary', S3 + 'ADF/standard/base')], ['adf.cochain', 'adf.prime', 'adf.coboundary'])
p('C18', 'Distributed vectors and matrices behave as one global object',
  'Addition, subtraction, scaling, products, gathering to one process, spreading to all and cutting up of global vectors and matrices give the same result as on undistributed data, for all entry values and any number of processes. Results of reductions, inner products and assembled systems do not depend on the number of processes.',
  ['inputs', 'schedules', 'configurations'], 'all entry values; 1 to 3 processes',
  'tests run one process count at a time and never compare two',
  ['tools/miLinearAlgebra/dataStructures', 'root/config/main.py'], [('GlobalMatrix, DistributedVector, LocallyFullVector', 'tools/miLinearAlgebra/dataStructures')],
  ['GlobalMatrix.do.*', 'vector operators'])
p('C19', 'Nonlinear systems are linearised consistently',
  'The Jacobian system a nonlinear problem builds for Newton iterations is the exact derivative of the residual it evaluates, and the residual is the sum of the linear part and all nonlinear terms minus the right-hand side, for every state.',
  ['inputs'], 'all states (cochains) and all entry values in the bounds', 'tests only see convergence of one run; a slightly wrong Jacobian still converges',
  ['tools/miLinearAlgebra/nonlinearSystem', 'tools/elementwiseCache/dataStructures/objects/multiDimMatrix'], [('multi-dimensional matrices and Newton solver', 'tools/miLinearAlgebra/nonlinearSystem')],
  ['nLS.do.*', 'MDM.do.*'])
p('C20', 'Error norms are the norms of the difference',
  'The reported L-2, H-curl, H-div, H-1 and L-n errors of a discrete form with respect to a field equal the norm of the difference between the reconstructed form and the field over the whole domain, for every form and every field, and norms/global distances between forms likewise.',
  ['inputs', 'configurations'], 'all cochains and polynomial fields in the bounds', 'tests only compare orders of magnitude',
  [S3 + 'forms/standard/base/error.py', S2 + 'forms/standard/base/error.py', T + 'forms/standard/base/error.py'], [('error.L, error.H', S3 + 'forms/standard/base/error.py')], ['form.error.L()', 'form.error.H()', 'form.do.compute_L2_energy_with'])
p('C21', 'Linear solvers return what they say',
  'A direct solve returns the solution of the system; an iterative solver returns a vector together with the real norm of its residual and a status that claims success only when a requested tolerance was reached, for every matrix, right-hand side, initial guess, restart and iteration limit, also when the Krylov space is exhausted early; the result does not depend on how the system is distributed over processes, and the arguments are left as they were.',
  ['inputs', 'configurations', 'schedules'], 'all entries of small systems; 1 to 3 processes; iteration and restart limits of a few steps',
  'tests solve a few well-behaved systems and only look at the digits of one entry',
  ['tools/miLinearAlgebra/solvers', 'tools/miLinearAlgebra/linearSystem'], [('the solvers', 'tools/miLinearAlgebra/solvers/regular')], ['LinearSolver(...)(A, b)', 'linearSystem.solve'])
p('C22', 'What is saved is what is read',
  'A mesh, space, primal or dual form saved to a file comes back with the same mesh, space, kind, hybridity, name and, element by element, the same cochain, for every cochain, whatever the numbers of processes and element distributions at writing and reading, alone or in a list, and whatever was read before or happened to the arguments after it was made.',
  ['inputs', 'configurations', 'histories'], 'all cochains; meshes of 2 to 8 elements; 1 to 3 processes on either side; reads in any order of two meshes',
  'tests write and read one form with the same number of processes',
  ['root/save.py', 'root/read/main.py', 'objects/CSCG/base/forms/base/main.py'], [('save and read', 'root/read')], ['save(obj, filename)', 'read(filename)'])
p('C23', 'Time marching and parameter sweeps do every step exactly once',
  'A time iterator calls its solver for (t0 + k dt, t0 + (k+1) dt), k = 0, 1, ..., in turn, on all processes alike, until the requested number of steps or end time is reached or the solver asks to stop, and its table has one row per step with the right time, step and results; an interrupted run that is resumed from its table computes exactly the missing steps; a parameter sweep runs the solver once for every distinct combination of inputs and records the results next to them.',
  ['inputs', 'histories', 'crash points', 'schedules'], 'all start, step and end times, all solver results; up to 4 steps interrupted anywhere with any auto-saves done; 1 to 3 processes',
  'tests run one uninterrupted iteration with one step size',
  ['tools/iterators', 'tools/run', 'tools/legacy/serialRunners'], [('iterators', 'tools/iterators'), ('runners', 'tools/run/runners')], ['SimpleIterator.run', 'ParallelMatrix3dInputRunner.iterate'])
json.dump
p('C24', 'Exported data are the field at the points of the grid',
  'The files written for visualisation hold, for every region and every process layout, the mapped points of the grid the user asked for, cells that tile each region exactly once with their corners in the order the cell type prescribes, and at each point the values of the form there; sampled exports hold every sample of the requested regions once; a portion of a discrete field holds exactly the grid points inside the requested range with their values; and structured data are only accepted on an increasing grid.',
  ['inputs', 'configurations'], 'all cochains; all ranges of a portion; meshes of up to 4 regions and 16 triangles; 1 to 3 processes',
  'tests export a file and do not look into it',
  ['objects/CSCG/tools', 'objects/CSCG/base/discrete_fields', 'objects/miUsGrid/triangular/mesh/miscellaneous'], [('vtk export', 'objects/CSCG/tools'), ('portions', 'objects/CSCG/_2d/discreteFields'), ('sampled export', 'objects/CSCG/_3d/forms/standard/base/export')], ['gridToVTK', 'unstructuredGridToVTK', '_2dCSCG_DF_PortionBase'])
p('C25', 'Forms are combinations of their degrees of freedom',
  'Negation, sum, difference and scalar multiples of forms are those of their cochains and fields and leave the operands alone; every degree of freedom knows every mesh element, trace or edge element and local place it sits at, with the same value of every cochain there, and its basis function is the field whose cochain is one there and zero elsewhere; the degrees of freedom found for a corner of an element or region, or for a global number, are those located there, with the right anchors, on any number of processes.',
  ['inputs', 'configurations'], 'all cochains and scalars; every degree of freedom of meshes of 1 to 8 elements; hybrid and not; 1 to 3 processes',
  'tests look up a few degrees of freedom of one mesh with equal degrees in all directions',
  ['objects/CSCG/_3d/forms/standard/base/dofs', 'objects/CSCG/_2d/forms/standard/base/dofs', 'objects/CSCG/_3d/forms/trace/base/dofs', 'objects/CSCG/_3d/forms/edge/base/dofs'], [('dofs of forms', 'objects/CSCG/_3d/forms/standard/base/dofs'), ('corner dofs', 'objects/CSCG/_2d/forms/standard/base/dofs'), ('form arithmetic', 'objects/CSCG/base/forms')], ['form + form', 'dofs[i].basis_function', 'dofs.do.find'])
p('C26', 'Diagnostics describe the field, the matrix and the mesh they are taken of',
  'The Q- and lambda_2-criteria of a velocity field are those of its velocity gradient at the requested points (Q = (|Omega|^2 - |S|^2)/2, lambda_2 the middle eigenvalue of S^2 + Omega^2), for every field the form represents; sparsity, condition number and eigenvalues reported for a matrix are those of the whole matrix, whatever the number of processes that share it, and leave it alone; lengths, areas and intersections of triangles and lines are the geometric ones.',
  ['inputs', 'configurations'], 'all fields of degree up to 2; all matrices in a box with unequal shares on 1 to 3 processes; all triangles in a box',
  'tests only call the diagnostics, or call them on one process',
  ['objects/CSCG/_3d/forms/standard/_1s/special', 'objects/CSCG/_3d/forms/standard/_2s/special', 'tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition', 'tools/miLinearAlgebra/dataStructures/globalMatrix/condition.py'], [('vortex detection', 'objects/CSCG/_3d/forms/standard/_2s/special'), ('matrix condition', 'tools/miLinearAlgebra/dataStructures/globalMatrix/condition.py')], ['form.special.vortex_detection.Q_and_lambda2', 'matrix.condition.pseudo_sparsity'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
