"""mkdesign.py: DESIGN.md from the text below, properties.jsonl and the BOUNDS / ASSUMPTIONS of the checks."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = r'''# Solver-based checking of mifem

mifem is a Python library (numpy/scipy/mpi4py) for the mimetic spectral element method: meshes of curvilinear structured
grids in 2D/3D (CSCG) and of triangles (miUsGrid), spaces of polynomials, discrete differential forms, the matrices and
right-hand sides made from them, boundary conditions, algebraic solvers, time iterators and file I/O.  What a user relies
on are algebraic and geometric identities that hold for *every* field, cochain, point, partition or history; a test can
only sample them.  They are also what symbolic execution of the real code plus an SMT solver can decide.

(This file is written by `tools/mkdesign.py`; bounds and assumptions below are those of the check modules.)

## 1. Technique

**The real code runs on symbolic values.**  `check.sh Cxx` copies /repo's current working tree (a link farm: the triangle
meshes rewrite tracked files when they are read), imports it, and calls the library through its public interfaces.  The
inputs of the harness (cochains, coefficients of fields, points, times, matrix entries, element counts, ...) are symbolic
reals or integers.  Nothing is modelled by hand and nothing is cached between runs: the encoding *is* the execution of
today's source.

* `engine/sym.py` – symbolic reals `S`: multivariate polynomials in normal form over the inputs and over opaque atoms
  (sin/cos/exp/sqrt/reciprocal of a polynomial, with their relations used in the normal form and in the query).  Numerical
  coefficients are combined in doubles, as the program does.  Symbolic integers `SI` are z3 integer terms.  A comparison of
  symbolic values gives a symbolic condition; using it as a bool *forks*: both branches are explored depth-first if z3
  finds them feasible (`harness.Explorer`).
* `engine/shim.py` – numpy and scipy.sparse accept symbolic entries inside `ctx.symbolic_code()` (object arrays; the dtype
  of `np.zeros` etc. follows; sparse formats keep explicit structure; `linalg.solve/inv`, comparisons of arrays,
  `isinstance(x, float)` and the like are given symbolic versions).  Concrete data take numpy's own path.
* `engine/mpisim.py` – n simulated MPI processes in one interpreter: every module that holds RANK/SIZE/COMM sees those of
  the running rank; control changes hands at communication calls; messages are deep-copied; collective calls must match in
  order, kind and root, buffers in type and length, every message must be received, nobody may wait for ever (deadlock,
  truncated and unmatched messages are violations).  Module-level caches are per rank, as they are per process in reality.
* `engine/harness.py` – a claim `ctx.equal(a, b, tol)` / `ctx.claim(cond)` is decided by z3 for **all** values in the box of
  the inputs on that path: first by normal form (the difference is the zero polynomial up to round-off of the coefficients:
  still posed as |difference| <= tol over the box), else by an SMT query, linear where possible, otherwise nonlinear real
  arithmetic with the atom axioms.  `ctx.distinct` poses the opposite (there *is* an input that tells two things apart) so
  that equalities are not vacuous.  Every path ends with a reachability twin (`assert false` must be violated); a harness
  without claims or without a reachable end is reported as vacuous.
  A symbolic integer that must become concrete takes one feasible value per path, the others are explored on other paths.
* `ctx.deriv` – derivatives of executed expressions (exact, with respect to symbolic inputs): used as the oracle of
  Jacobians, of derivatives of bases and of exact solutions.

**Verdicts.**  unsat = the claim holds on the path for every input in the box.  sat = a model, which `engine/worker.py
concrete` replays on the unpatched code with plain floats (no shim); only if the replay fails as well, the check prints
`VIOLATION property=.. replay=..` and exits 1.  A model that does not reproduce (an artefact of the encoding), a timeout,
unknown, or code that leaves the supported fragment is *inconclusive*: recorded in the evidence, never a violation, never
counted as decided.  An exception raised by the code under a symbolic input is treated like a failed claim (replayed).
Harnesses whose symbolic run raises in the encoding are also executed once on concrete values (a crash there is a violation).

**Evidence.**  `evidence/Cxx.json` lists functions of /repo executed with symbolic values, harnesses, paths, claims,
queries, unsat/sat/unknown, inconclusive ones, solver time, bounds and assumptions.

**What it does not settle.**  Claims are exact-real-arithmetic claims with the doubles of the program as coefficients and
a tolerance (1e-8 .. 1e-10 unless stated): accumulation of round-off beyond that, overflow and conditioning are out of
scope.  Sizes (degrees, layouts, process counts) are enumerated up to the stated bounds, everything else is symbolic.
The argument of a square root is taken to be non-negative unless the solver shows that it can be negative, denominators
that are not constant are taken to be non-zero (axioms of the atom; a division by a quantity that *can* vanish is not
reported).  sin/cos/exp/sqrt/reciprocal atoms carry their bounds and the relations sin^2+cos^2=1, exp(a)exp(-a)=1, sqrt^2=arg,
x(1/x)=1; exponentials of almost equal arguments are related by their Taylor polynomial to rounding accuracy.  Plotting is not covered (matplotlib only), PETSc is
not installed.

**Running.**  `bash check.sh Cxx quick|thorough [--only SUBSTR] [-v]`, `bash check.sh Cxx --replay FILE`.  Quick runs take
3 to 90 s on 8 cores; thorough adds the harnesses marked `tier='thorough'` (bigger meshes, degrees, process counts) and
longer timeouts.

**Known engine limits met.**  A symbolic real used as an array index or as a `range` bound is not supported (none of the
properties needs it); C extensions other than numpy/scipy.sparse are replaced by recorders where they only write
(evtk/pyevtk, savemat) or by exact versions (sparse direct solvers); `scipy.integrate/optimize` are executed concretely.

## 2. Properties
'''

HOW = {
 'C01': ('cochains symbolic', 'the incidence matrices and `form.coboundary()` are applied to an arbitrary cochain; the result of applying d twice must be the zero polynomial; also that the incidence matrix equals the map cochain -> coboundary, and the same through trace/hybrid numbering', 'one sampled cochain cannot show a cancelled entry for every element, degree mix and orientation'),
 'C02': ('coefficients of the polynomial field and time factor symbolic', 'd(reduce(u)) = reduce(du), with du from the field\'s own calculus and, independently, from `ctx.deriv`; reduction itself is compared with exact integrals of the polynomial over mapped edges/faces/cells', 'tests check one analytical field at a tolerance of the discretisation error'),
 'C03': ('local cochains symbolic; fields symbolic', 'degree-of-freedom functionals (point values, line/surface/volume integrals by a high-order rule written in `checks/oracle.py`) of the reconstruction give back the cochain; every route to values (ravel, vectorised, element range, regions, region-wise grids, reconstruction matrices) agrees; polynomial reproduction', 'tests reconstruct a smooth function approximately'),
 'C04': ('evaluation point and coefficient vector symbolic', 'Kronecker property, histopolation integrals, partition of unity, derivative of nodal = edge combination (via `ctx.deriv`), tensor products and ordering, for every point', 'a test evaluates at a handful of points'),
 'C05': ('coefficients of the polynomial symbolic', 'the rule applied to the polynomial equals its exact integral; nodes inside, weights positive, tensor products in the order of the nodes', 'tests do not vary categories and degrees per direction'),
 'C06': ('reference point symbolic', '`mapping` is differentiated exactly (`ctx.deriv`) and compared with Jacobian, inverse, metric, inverse metric, determinant; the same for regions, trace elements, triangle vertices; standard-, quadrature-point variants equal the general ones', 'tests use numerical differentiation at random points of default domains'),
 'C07': ('coefficients of both forms symbolic', 'a^T M b equals the integral of the reconstructed fields with the metric (high-order rule); symmetry; wedge/Hodge/cross-product/trilinear matrices against integrals of the pointwise product', 'tests compare norms of one field'),
 'C08': ('fields of a separating family symbolic', 'two local dofs have the same global number iff the functionals agree on all fields; numbers are 0..N-1 without gaps; local numbering, boundary and region lists, per-rank ranges', 'tests compare with stored numbers of one mesh'),
 'C09': ('points of sides, edges and nodes symbolic (parameters)', 'the element/side/edge/node maps say "same" iff all points coincide; the outward normal is oriented; boundaries are where they should be; sizes and quality measures', 'tests check counts'),
 'C10': ('element counts, rank ranges, element number symbolic integers; distributions enumerated', 'owner functions are a partition, consistent between ranks and inverse to each other; the same mesh results with every number of processes', 'tests run with one process count'),
 'C11': ('all block entries, scalars symbolic', 'every element-wise operation (sum, product, transpose, inverse, block, bmat, concatenation, customisation, caches) equals dense linear algebra of the blocks', 'tests use equal data in all elements, so caches and keys cannot be wrong'),
 'C12': ('all local entries symbolic', 'assembled matrix/vector = sum over elements through the gathering matrix, after any history of changes, in both formats and all ranks; splitting the solution back', 'tests assemble well-behaved blocks once'),
 'C13': ('local entries, boundary data symbolic', 'before/after comparison of the assembled system row by row: rows of imposed dofs become identity rows with the given value, others only change as prescribed; local and global, strong/essential/pairwise/dual versions', 'tests look at solution errors'),
 'C14': ('point and time symbolic', 'the fields of every exact solution, executed symbolically, satisfy the PDE they are offered for (Navier-Stokes, Poisson, Maxwell, Euler, Stokes, advection-diffusion), with `ctx.deriv` as the derivative', 'tests evaluate the library\'s own residual at a few points'),
 'C15': ('coefficients, points, times symbolic', 'sum, product, cross, grad, curl, div, convection, norm components and time derivatives of fields against exact calculus of the polynomials; caches over histories of times', 'tests use one time'),
 'C16': ('cochains, fields symbolic', 'trace/edge/node/local-trace restriction, its matrices and mass matrices against the values and integrals of the volume form on the side with the right orientation', 'sign errors cancel in global tests'),
 'C17': ('cochains symbolic', 'pairing of dual and prime forms is the L2 inner product, dual d is the adjoint of prime d up to the boundary pairing, norms and errors of dual forms', 'tests check one solution'),
 'C18': ('all stored entries symbolic', 'distributed objects on 1-4 simulated processes behave as the sum of their parts: products, transposes, rows, clearing and setting rows, adjusting, gathering, scaling, norms', 'tests run on one process'),
 'C19': ('all entries symbolic', 'the assembled linear system is the derivative (via `ctx.deriv`) of the nonlinear residual at the current state; updates, boundary values and stopping; evaluation of multi-dimensional matrices', 'tests look at convergence of one problem'),
 'C20': ('coefficients, exact field and time symbolic', 'norms/errors/inner products (n = 1, 2, 3, 4, inf; L2, H(d), dual and trace forms, per-process sums) against exact integrals or samples of the difference', 'tests compare decreasing errors'),
 'C21': ('entries, right-hand sides, tolerances, residual histories symbolic', 'GMRES cycle = least-squares minimiser over the Krylov space, exact at the end of the space; BiCGSTAB finite termination; direct/Schur solution satisfies A x = b; the reported residual, iterations and info are true; the stop rule', 'tests solve one system'),
 'C22': ('cochains symbolic; orders of reading enumerated', 'form/mesh/space/field saved on n processes and read on m give the same object (elements identified by region and indices), including lists, chained reads and changed distributions', 'tests read what they have just saved in one order'),
 'C23': ('times, step sizes, solver results symbolic; crash points forked', 'calls of the solver and rows of the table are those of the definition, for every interruption and resumption; sweeps', 'tests run one uninterrupted iteration'),
 'C24': ('cochains and ranges symbolic', 'the arguments handed to the vtk/mat/txt writers are compared with the element-wise reconstruction at the mapped grid points, the cells with the grid cells, on 1-3 processes; portions for every range', 'tests do not read exported files'),
 'C25': ('cochains, scalars, linear fields symbolic; every dof', 'f+g, f-g, -f, a f against the cochains and reconstructions; the value of a symbolic cochain at every position a dof reports is the same symbol, all occurrences are reported once; basis functions against reconstruction of the unit cochain; corner, trace and edge look-ups against the values at the corner, side, edge', 'tests look up a few dofs of symmetric configurations'),
 'C26': ('velocity coefficients, matrix entries, vertices symbolic', 'the matrix handed to the eigenvalue stand-in is S^2 + Omega^2 of the exact gradient, Q its invariant; matrices handed to cond/eig are the sum of the shares; sparsity is the mean over all elements; Heron area and lengths squared are the polynomial ones', 'tests do not compare values'),
}

FINDINGS = r'''
## 3. Defects found and repaired
Every repair is one `fix:` commit in /repo and one `fixed:` entry in `known_findings.json` (%d at present, by property: %s).
There are no open known findings: every genuine defect that a check reported was small enough to repair.

Seen while reading, outside what the checks claim (unfinished or unreachable features, not counted as violations):
caches keyed by `id()` in `cross_product_2__ip_1.py` and `inner_curl_cross_2f2f.py`; 3D
`mesh.elements.involved_mesh_boundaries` uses an undefined name; 3D 0-form `discretize(target='BC')` with a non-standard
field returns None; 2D trace forms without discretize/reconstruct; 1-edge and 1-local-trace reconstruction, edge
`local -> EEW` and vectorised 3D 1-/2-form reconstruction raise NotImplementedError; trace/edge `error.L` only for n = inf;
3D 1-trace `error.L` compares two of three components; the Newton solver changes the caller's `LS_solver_kwargs`; SciPy
solver wrappers report 0 iterations and do not take `maxiter` as a string; iterators without `max_steps` are not
implemented; local-trace forms cannot be saved; `tol` of the iterative solvers also acts as a stagnation threshold (the
existing tests rely on it); unstructured vtk export merges the periodic sides of periodic domains; the 1- and 2-form
triangle exports sample at eta = -0.99 instead of the singular vertex; 3D local-trace 1-forms cannot be discretised,
reconstructed or massed (FrozenError / NotImplementedError); the 2D outer 1-form `boundary_integrate` helper is unfinished;
`discretize` of 3D 1-traces for T_perp of a continuous field raises NotImplementedError; 3D `mesh.trace.quality` drops
a worst quality of exactly zero.

## 4. False alarms corrected
Claims that turned out too strong and were changed (never listed as findings): quadrature on curved elements is not exact
(those claims use high degrees and tolerances of 1e-4..1e-6, or affine elements); at an interface a discontinuous form has
two values (an exported point may hold either); geometrically coincident sides of a crack are different entities (C08, C09);
the sparsity pattern under a lock and the data behind a cache key are the user's promise (C11, C12); solutions with a
prescribed body force need not satisfy the momentum equation (C14); derivatives which the library takes numerically are
compared at the accuracy of its step (C14, C15); the tolerance of the iterative solvers also acts as a stagnation threshold
which the existing tests rely on, so the stop rule claims "success only when a tolerance is reached" (C21); the values of
1-/2-forms next to the singular vertex of a triangle are huge, so exports are compared to 1e-5 there (C24).

## 5. Planted bugs (`seeded/`)
'''

SEEDS = r'''
Which check catches which change is re-measured with `tools/trial.sh seeded/ID notests Cxx`; the table lists the check of
the property the change was written for.  Earlier drafts that escaped led to strengthening: repeated use of one object
(caches: C11, C12, C15, C22), unequal degrees per direction and per form (C02, C03, C07), non-default domain parameters
(C06), several simulated ranks with per-rank caches (C10, C18, C22), explicit zeros (C18), and interrupted runs (C23).
'''


def const(path, name):
    t = ast.parse(open(path).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return None


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    for d in props:
        i = d['id']
        f = V + '/checks/%s.py' % i
        sym, how, why = HOW[i]
        out.append('### %s %s\n%s\n\n* Symbolic: %s.\n* Decided by: %s.\n* Bounds: %s\n* Assumptions: %s.\n* Beyond the tests: %s.\n'
                   % (i, d['title'], d['statement'], sym, how, const(f, 'BOUNDS'), '; '.join(const(f, 'ASSUMPTIONS') or ['none']), why))
    k = json.load(open(V + '/known_findings.json'))
    by = {}
    for e in k['fixed']:
        q = e.get('property') if isinstance(e, dict) else e.split('property=')[1].split()[0]
        by[q] = by.get(q, 0) + 1
    out.append(FINDINGS % (sum(by.values()), ', '.join('%s %d' % x for x in sorted(by.items()))))
    out.append('| change | property | needs | caught by |\n|---|---|---|---|')
    for s in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
        m = json.load(open(V + '/seeded/%s/meta.json' % s))
        out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), m['property'] + m.get('also', '')))
    out.append(SEEDS)
    open(V + '/DESIGN.md', 'w').write('\n'.join(out))


main()
