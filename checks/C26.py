"""C26: diagnostics describe the field, the matrix and the mesh they are taken of."""
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.common import *
from checks.C13 import S_, C

BOUNDS = ('velocity fields with all polynomial coefficients of degree up to 2 symbolic in 1- and 2-forms of degree 2-3 on orthogonal 3-D meshes of 1-2 elements, '
          'all eigenvalues of a symmetric 3x3 matrix; element-wise matrices with any pattern of entries of a 2x3 block on 1-3 simulated processes with unequal '
          'shares; all triangles with vertices in a box; all pairs of lines that are parallel or clearly not')
ASSUMPTIONS = ['numpy.linalg.eig, eigh, eigvals, eigvalsh and cond are replaced by stand-ins that return symbols with the invariants of the matrix',
               'several processes are simulated in one Python process']


class Eigen(object):
    """stand-in for the eigenvalue functions of numpy: symbols with the right sum, in ascending order for the symmetric versions"""

    def __init__(self, ctx):
        self.ctx, self.k, self.seen = ctx, 0, []

    def __enter__(self):
        L = np.linalg
        self.old = {n: getattr(L, n) for n in ('eig', 'eigh', 'eigvals', 'eigvalsh')}
        for n in self.old:
            setattr(L, n, (lambda n: lambda A, *a, **k: self.call(n, A, *a, **k))(n))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.linalg, n, f)

    def call(self, n, A, *args, **kw):
        ctx = self.ctx
        A = np.asarray(A)
        if A.dtype != object:
            return self.old[n](A, *args, **kw)
        B = A.reshape((-1,) + A.shape[-2:])
        out = np.zeros(B.shape[:2], dtype=object)
        for r, M in enumerate(B):
            v = ctx.reals('lambda%d_' % self.k, 3, -1000, 1000)
            self.k += 1
            ctx.assume((v[0] <= v[1]) & (v[1] <= v[2]))
            tr = M[0, 0] + M[1, 1] + M[2, 2]
            v = [v[0], v[1], tr - v[0] - v[1]]
            ctx.assume(v[1] <= v[2])
            self.seen.append((M, v[1]))
            out[r] = [v[q] for q in ((0, 1, 2) if n.endswith('h') else (2, 0, 1))]
        out = out.reshape(A.shape[:-1])
        return (out, None) if n in ('eig', 'eigh') else out


def vortex(ctx, k, p, layout, pts, bounds, deg=1):
    """Q and lambda_2 of a velocity field in a 1- or 2-form"""
    m = mesh3('crazy', layout, c=0., bounds=bounds)
    fc = fc3(m, space3(p))
    F = [poly(ctx, 'u' + c, deg, 3) for c in 'xyz']
    with ctx.symbolic_code():
        f = fc('%d-f' % k, hybrid=False)
        f.CF = fc('vector', tuple(g.func() for g in F))
        f.CF.current_time = 0.
        f.discretize()
        with Eigen(ctx) as eig:
            xyz, Q, L2 = f.special.vortex_detection.Q_and_lambda2(*pts)
    shape = tuple(len(q) for q in pts)
    for e in m.elements:
        X = m.elements[e].coordinate_transformation.mapping(*np.meshgrid(*pts, indexing='ij'))
        ctx.claim(np.shape(Q[e]) == shape and np.shape(L2[e]) == shape, 'the shape of the result')
        for c in range(3):
            ctx.equal(xyz[e][c], X[c], 1e-9, 'the points')
        for j in np.ndindex(*shape):
            x = [X[c][j] for c in range(3)]
            G = np.array([[g.d(d)(0., *x) for d in range(3)] for g in F], dtype=object)
            S, W = (G + G.T) * 0.5, (G - G.T) * 0.5
            K = S.dot(S) + W.dot(W)
            q = 0
            for a in range(3):
                for b in range(3):
                    q = q + 0.5 * (W[a, b] * W[a, b] - S[a, b] * S[a, b])
            ctx.equal(Q[e][j], q, 1e-7, 'Q = (|Omega|^2 - |S|^2) / 2')
            if ctx.symbolic:
                hit = [M for M, v in eig.seen if v is L2[e][j]]
                if not hit:
                    hit = [M for M, v in eig.seen if same_symbol(v, L2[e][j])]
                ctx.claim(len(hit) == 1, 'lambda_2 is the second of the eigenvalues of one matrix')
                ctx.equal(hit[0], K, 1e-7, 'the matrix is S^2 + Omega^2')
            else:
                ctx.equal(L2[e][j], np.linalg.eigvalsh(K.astype(float))[1], 1e-6, 'lambda_2 is the second eigenvalue of S^2 + Omega^2')


def same_symbol(a, b):
    return str(a) == str(b)


def sparsity(ctx, n, size, pattern):
    """mean sparsity over the elements, and the share of entries of the assembled matrix that are stored, on any number of processes"""
    import scipy.sparse as sp
    from checks.C12 import matrix
    rs = np.random.RandomState(pattern)
    r, c = 2, 3
    data = {e: (rs.rand(r, c) < .5) * (1. + np.arange(r * c).reshape(r, c)) for e in range(size)}
    z = {e: ctx.choice('z%d' % e, [0, 1]) for e in range(min(size, 3))}
    for e, v in z.items():
        data[e] = data[e] if v else np.zeros((r, c))
    objs = mpisim.run(n, lambda k: mesh3('crazy', (size, 1, 1), c=0.))

    def use(k):
        m = objs[k]
        return matrix(m, {e: data[e] for e in m.elements}).condition.pseudo_sparsity
    with ctx.symbolic_code():
        out = mpisim.run(n, use)
    want = sum(1 - np.count_nonzero(a) / a.size for a in data.values()) / size
    for o in out:
        ctx.equal(o, want, 1e-12, 'the mean sparsity of all elements')


def whole(ctx, n, N=3):
    """the condition number, the eigenvalues and the sparsity are those of the whole matrix"""
    import scipy.sparse as sp
    from checks.C21 import shares
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as GM
    A = np.array(ctx.reals('a', (N, N), 1, 2)).reshape(N, N)
    A[0, N - 1] = 0
    Ap = shares(A, n)
    seen = []

    def fake(nm):
        def f(M, *a, **k):
            seen.append((nm, np.array(M)))
            return 3.5 if nm == 'cond' else (np.arange(N) * 1., np.eye(N))
        return f
    old = {q: getattr(np.linalg, q) for q in ('cond', 'eig')}

    def use(k):
        g = GM(sp.csr_matrix(Ap[k]))
        return g.condition.condition_number, g.condition.eig, g.condition.sparsity, g.M.toarray()
    try:
        for q in old:
            setattr(np.linalg, q, fake(q))
        with ctx.symbolic_code():
            out = mpisim.run(n, use)
    finally:
        for q, f in old.items():
            setattr(np.linalg, q, f)
    ctx.claim(sorted(q for q, _ in seen) == ['cond', 'eig'], 'one condition number, one set of eigenvalues')
    for q, M in seen:
        ctx.equal(M, A, 1e-12, 'the matrix of %s' % q)
    for k, (c, (w, v), s, M) in enumerate(out):
        ctx.claim(c == 3.5 and list(w) == list(range(N)) and np.array_equal(v, np.eye(N)), 'every process has the result')
        ctx.equal(s, (N * N - 1) / (N * N), 1e-12, 'the share of stored entries')
        ctx.equal(M, Ap[k], 1e-12, 'the matrix is left alone')


def triangle(ctx):
    """lengths, area and angles of any triangle"""
    from objects.miUsGrid.triangular.mesh.elements.element.main import miUsGrid_TriangularMesh_Element as E
    from components.functions._2dSpace import angles_of_triangle as A
    P = [np.array(ctx.reals('p%d' % k, 2, -2, 2)) for k in range(3)]
    cr = (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0])
    ctx.assume((cr > 0.1) | (cr < -0.1))

    class T(object):
        coordinates = P
        edge_lengths = property(lambda s: E.edge_lengths.fget(s))
        angles = property(lambda s: E.angles.fget(s))

    def d2(a, b):
        return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2
    t = T()
    with ctx.symbolic_code():
        L = E.edge_lengths.fget(t)
        area = E.area.fget(t)
    for q, (a, b) in zip(L, ((0, 1), (0, 2), (2, 1))):
        ctx.equal(q * q, d2(P[a], P[b]), 1e-9, 'the length of an edge')
        ctx.claim(q > 0, 'lengths are positive')
    ctx.equal(area * area * 4, cr * cr, 1e-7, 'the area')


def lines(ctx):
    from components.functions._2dSpace.line_intersection import find_line_intersection as F
    P = [ctx.reals('p%d' % k, 2, -2, 2) for k in range(4)]
    with ctx.symbolic_code():
        r = F(*[tuple(p) for p in P])
    d = [(b[0] - a[0], b[1] - a[1]) for a, b in ((P[0], P[1]), (P[2], P[3]))]
    cr = d[0][0] * d[1][1] - d[0][1] * d[1][0]
    # (the directions are parallel, or they are not by far: no rounding decides)
    ctx.assume((cr == 0) | (cr > 0.01) | (cr < -0.01))
    if r is None:
        ctx.claim(cr == 0, 'no intersection: parallel lines')
    else:
        for a, v in zip((P[0], P[2]), d):
            ctx.equal((r[0] - a[0]) * v[1], (r[1] - a[1]) * v[0], 1e-7, 'the point is on both lines')


B = ((0, 2), (-1, .5), (1, 2))
HARNESSES = [
    S_('vortex', C(vortex, 1, (2, 2, 2), (1, 1, 1), ([.3], [-.2], [.1]), B), C(vortex, 2, (2, 2, 2), (1, 1, 1), ([.3], [-.2], [.1]), B)),
    S_('vortex 2', C(vortex, 1, (3, 3, 3), (1, 1, 1), ([.3], [-.2, .5], [.1]), B, deg=2), tier='thorough'),
    S_('vortex 3', C(vortex, 2, (2, 2, 2), (2, 1, 1), ([.3], [-.2], [.6]), B)),
    S_('vortex 4', C(vortex, 1, (2, 2, 2), (1, 1, 1), ([-.4], [-.2, .7], [.1]), B), tier='thorough'),
    S_('sparsity', C(sparsity, 1, 3, 0), C(sparsity, 2, 3, 1), C(sparsity, 3, 5, 2), C(sparsity, 3, 2, 3)),
    S_('whole matrix', C(whole, 1), C(whole, 2), C(whole, 3)),
    S_('triangles', C(triangle)),
    S_('lines', C(lines)),
]
