"""C21: a linear solver returns what it says: the residual, the verdict, the same vector on every process, and an iterate the method promises."""
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.C13 import S_, C
from checks import common as C_

BOUNDS = ('systems of 2-4 unknowns on 1-3 simulated processes; GMRES/LGMRES: Hessenberg matrices in a Hadamard basis with symbolic entries, one cycle of '
          'length 3 (least squares) and 4 (exhausted space), and the two-parameter family (t A) x = s b for several cycles; BiCGSTAB: right-hand sides of '
          'two symbols, finite termination; direct: all entries of A and b symbolic; Schur: all right-hand sides, fixed matrices of 2-4 blocks; stopping rule: every history of up to 12 residuals '
          '(one symbol or several), tolerances symbolic; SciPy routines: arguments and results symbolic through a recording stand-in')
ASSUMPTIONS = ['SciPy\'s own solvers (spsolve, gmres, lgmres, tfqmr, gcrotmk, spilu) are replaced by an exact solve or a recording stand-in',
               'exact arithmetic: the convergence of the iterations under rounding is not decided',
               'the processes are simulated in one Python process (engine/mpisim.py)']
TOL = 1e-8
HAD = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]) / 2.


def run(ctx, n, f):
    with ctx.symbolic_code():
        return mpisim.run(n, f)


def shares(a, n, seed=0):
    """the parts of a matrix or vector on n processes: some entries split over two of them"""
    if n == 1:
        return [a]
    out = [np.zeros(a.shape, dtype=object if a.dtype == object else float) for _ in range(n)]
    for k, i in enumerate(np.ndindex(*a.shape)):
        r = (k + seed) % n
        if (k + seed) % 3 == 0:
            q = (r + 1) % n
            out[r][i] = a[i] * 0.25
            out[q][i] = a[i] * 0.75
        else:
            out[r][i] = a[i]
    return out


def wrap(A, b, x, r):
    import scipy.sparse as sp
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as M
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector as G
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as L
    x = np.array(x, dtype=object) if any(getattr(a, 'dtype', None) == object for a in (A[r], b[r])) else np.array(x)
    return M(sp.csr_matrix(A[r])), G(sp.csc_matrix(b[r].reshape(-1, 1))), L(x)


def solver(name, routine='auto'):
    from tools.miLinearAlgebra.solvers.regular.allocator import RegularSolverDistributor as D
    return D(name, routine=routine, name='vf')


def solve(ctx, n, A, b, x0, name, routine, COD=True, **kw):
    Ap, bp = shares(A, n), shares(b, n, 1)

    def use(r):
        M, v, x = wrap(Ap, bp, x0, r)
        X, info, beta, it, msg = solver(name, routine)(M, v, x, COD=COD, **kw)
        kept = None if COD else (M.M.toarray(), v.V.toarray().ravel(), x.V)
        return X.V, info, beta, it, isinstance(msg, str), kept
    out = run(ctx, n, use)
    for r, o in enumerate(out):
        if r:
            ctx.equal(o[0], out[0][0], 0, 'the solution is the same on all processes')
            ctx.equal(o[2], out[0][2], 0, 'the residual is the same on all processes')
        ctx.claim((o[1], o[3], o[4]) == (out[0][1], out[0][3], True), 'the verdict is the same on all processes')
        if not COD:
            ctx.equal(o[5][0], Ap[r], 1e-12, 'the matrix is left alone')
            ctx.equal(o[5][1], bp[r], 1e-12, 'the right-hand side is left alone')
            ctx.equal(o[5][2], x0, 0, 'the initial guess is left alone')
    return out[0][:4]


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def mv(A, x):
    return np.array([dot(r, x) for r in A], dtype=object if getattr(A, 'dtype', None) == object or getattr(x, 'dtype', None) == object else float)


def residual(ctx, A, b, x, beta, label):
    r = b - mv(A, x)
    ctx.equal(beta * beta, dot(r, r), TOL, label + ': the residual reported is that of the result')
    ctx.claim(beta >= 0, label + ': a residual is not negative')
    return r


# ------------------------------------------------------------------------------------- Krylov methods
def hessenberg(ctx, zero, sym):
    """a Hessenberg matrix; zero: the subdiagonal entries that vanish; sym: the entries that are symbols"""
    Hm = np.array([[1.5, -0.5, 0.25, 1.], [0, 0.75, 1., -0.25], [0, 0, -1.25, 0.5], [0, 0, 0, 1.75]], dtype=object if ctx.symbolic else float)
    for j in range(3):
        Hm[j + 1, j] = 0. if j in zero else 0.75 + 0.25 * j
    for i, j in sym:
        Hm[i, j] = ctx.real('h%d%d' % (i, j), 0.5, 2) if i > j else ctx.real('h%d%d' % (i, j), -1, 1)
    return Hm


def one_cycle(ctx, n, name, routine, restart, zero=(), sym=((1, 0), ), guess=False, COD=True):
    """one cycle from r0 = s q0: the result minimises the residual over the Krylov space"""
    Hm = hessenberg(ctx, zero, sym)
    A = mm(mm(HAD, Hm), HAD.T)
    s = ctx.real('s', 0.5, 2)
    x0 = np.array(ctx.reals('x', (4,))) if guess else np.array([0.5, 0, -1, 0.25])
    b = mv(A, x0) + s * HAD[:, 0]
    kw = dict(restart=restart) if name == 'GMRES' else dict(m=restart, k=0)
    x, info, beta, it = solve(ctx, n, A, b, x0, name, routine, COD, maxiter='1', **kw)
    r = b - mv(A, x)
    Q = mv(HAD.T, r)
    ctx.claim(info == 1 and it == 1, 'one cycle: one iteration done, not converged by tolerance')
    dim = restart
    for j in range(3):
        if j in zero:
            dim = min(dim, j + 1)
    y = mv(HAD.T, x - x0)
    for i in range(dim, 4):
        ctx.equal(y[i], 0, TOL, 'one cycle: the update lies in the Krylov space')
    for j in range(dim):
        ctx.equal(dot(Hm[:, j], Q), 0, TOL, 'one cycle: the residual is the smallest')
    if dim < restart or dim == 4:
        ctx.equal(r, 0 * r, TOL, 'one cycle: an exhausted space gives the solution')
    else:
        ctx.equal(beta * beta, dot(Q, Q), TOL, 'one cycle: the residual reported is that of the result')


def mm(A, B):
    out = np.zeros((A.shape[0], B.shape[1]), dtype=object if A.dtype == object or B.dtype == object else float)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = dot(A[i], B[:, j])
    return out


A5 = np.array([[4., 1, 0, -1, 0.5], [1, 3, 1, 0, 0], [0.5, 0, 5, 1, -1], [0, -1, 1, 2, 1], [1, 0, 0.5, 0, 3]])
B5 = np.array([1., -2, 0.5, 3, 1])
X5 = np.array([0.5, 1, -1, 0, 2])


def cycles(ctx, n, name, routine, its, kw, COD=True, pre=None):
    """(t A) x = s b: several cycles; every cycle minimises over its space (a small independent calculation), for every scaling"""
    s, t = ctx.real('s', 0.5, 2), ctx.real('t', 0.5, 2)
    A, b, x0 = A5 * t, B5 * s, X5 * (s / t)
    x, info, beta, it = solve(ctx, n, np.array(A), np.array(b), np.array(x0), name, routine, COD, maxiter=str(its),
                              **dict(kw, **({} if pre is None else {'preconditioner': pre})))
    # the independent calculation, for s = t = 1
    P = np.eye(5) if pre is None else np.diag(1 / np.diagonal(A5))
    M, f, z, old = P @ A5, P @ B5, X5, []
    m, k = (kw['restart'], 0) if name == 'GMRES' else (kw['m'], kw['k'])
    for q in range(its):
        r = f - M @ z
        aug = old[::-1][:k]
        K = [r]
        for _ in range(m + k - len(aug) - 1):
            K.append(M @ K[-1] / np.linalg.norm(M @ K[-1]))
        K = np.array(K + aug).T
        d = K @ np.linalg.lstsq(M @ K, r, rcond=None)[0]
        z = z + d
        old.append(d)
    ctx.equal(x, z * (s / t), 1e-6, 'several cycles: the best update of every cycle')
    ctx.claim(info == its and it == its, 'several cycles: all done')
    res = f - M @ z
    want = np.sqrt(res @ res)
    scale = s if pre is None else s / t
    ctx.equal(beta, want * scale, 1e-6, 'several cycles: the residual')


def converged(ctx, n, name, routine):
    """an initial guess that solves the system is returned, and a zero right-hand side is no obstacle"""
    s = ctx.real('s', 0.5, 2)
    x0 = np.array(ctx.reals('x', (5,)))
    b = mv(A5, x0)
    kw = dict(restart=3) if name == 'GMRES' else dict(m=3, k=1) if name == 'LGMRES' else {}
    x, info, beta, it = solve(ctx, n, A5 * 1., b, x0, name, routine, maxiter=5, **kw)
    ctx.equal(x, x0, TOL, 'a solution is returned as it is')
    ctx.claim(info == 0 and it == 0, 'a solution needs no iteration')
    ctx.equal(beta, 0, 1e-7, 'a solution has no residual')
    # the identity: done after one step of any of the methods
    x, info, beta, it = solve(ctx, n, np.eye(5), B5 * s, np.zeros(5), name, routine, maxiter=5, **kw)
    ctx.equal(x, B5 * s, TOL, 'the identity')
    ctx.claim(info == 0 and it == 1, 'the identity: one iteration')
    x, info, beta, it = solve(ctx, n, A5 * s, np.zeros(5), np.zeros(5), name, routine, maxiter='2' if name != 'BiCGSTAB' else 2, **kw)
    ctx.equal(x, np.zeros(5), TOL, 'nothing to solve')
    ctx.equal(beta, 0, TOL, 'nothing to solve: no residual')


def bicgstab(ctx, n, its, COD=True, guess=False, N=5):
    s, t_ = ctx.real('s', 0.5, 2), ctx.real('t', 0.5, 2)
    A, b = A5[:N, :N] * t_, B5[:N] * s
    x0 = np.array(ctx.reals('x', (N,))) if guess else X5[:N] * (s / t_)
    if guess:
        b = b + mv(A, x0)
    # a breakdown of the method itself is not considered
    r = [b - mv(A, x0)]
    h, rho, al, om, p, v = r[0], 1, 1, 1, np.zeros(N), np.zeros(N)
    z = x0
    for q in range(its):
        rho1 = dot(h, r[-1])
        if q:
            ctx.assume(om != 0)
        be = rho1 / rho * (al / om)
        p = r[-1] + be * (p - om * v)
        v = mv(A, p)
        d = dot(h, v)
        ctx.assume(d != 0)
        al = rho1 / d
        s_ = r[-1] - al * v
        t = mv(A, s_)
        ctx.assume(dot(t, t) > 0)
        om = dot(t, s_) / dot(t, t)
        z = z + al * p + om * s_
        r.append(s_ - om * t)
        rho = rho1
        ctx.assume(rho != 0)
    x, info, beta, it = solve(ctx, n, A, b, x0, 'BiCGSTAB', 'auto', COD, maxiter=str(its))
    ctx.equal(x, z, 1e-6, 'BiCGSTAB: the iterate of the method')
    residual(ctx, A, b, x, beta, 'BiCGSTAB')
    ctx.claim(info == its and it == its, 'BiCGSTAB: all iterations done')


# ------------------------------------------------------------------------------------- stopping rule
def stop(ctx, n, one=False):
    """the decision after every history of residuals"""
    from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.stop_criterion import ___gmres_stop_criterion___ as rule
    if one:
        q = ctx.real('q', 0.1, 1.5)
        B = [100 * q ** 0]
        for i in range(n - 1):
            B.append(B[-1] * (q if i % 3 else 0.5 + q / 2))
    else:
        B = [ctx.real('b%d' % i, 1e-6, 1000.) for i in range(n)]
    B = [B[0]] + B         # the first residual comes twice
    tol, atol = ctx.real('tol', 1e-9, 9e-3), ctx.real('atol', 1e-9, 1.)
    it, mx = ctx.int('it', 0, 6), ctx.int('mx', 1, 5)
    with ctx.symbolic_code():
        J, go, info, text = rule(tol, atol, it, mx, list(B))
        F = rule(tol, atol, it, '4', list(B))
    last = B[-1]
    ctx.claim(isinstance(go, bool) and isinstance(text, str), 'a decision')
    if go:
        if info is it or not isinstance(info, int):
            ctx.claim(info == it, 'stopped without convergence: the number of iterations')
            ctx.claim(last >= atol, 'stopped without convergence: the tolerance is not reached')
            ctx.claim((it >= mx) | (len(B) >= 5) | (B[0] - last <= tol * B[0]) if ctx.symbolic else it >= mx or len(B) >= 5 or B[0] - last <= tol * B[0],
                      'stopped without convergence: the iterations are used up, or the progress was watched long enough')
        elif info == 0 and J in (1, 4):
            ok = (last < atol) | (last < tol * B[0]) if ctx.symbolic else last < atol or last < tol * B[0]
            ctx.claim(ok, 'success means that a tolerance is reached')
        elif info < 0:
            ctx.claim(last > B[-2], 'divergence means that the residual has grown')
        elif not ctx.symbolic:
            ctx.claim(info == it, 'stopped without convergence: the number of iterations')
            ctx.claim(last >= atol, 'stopped without convergence: the tolerance is not reached')
            ctx.claim(it >= mx or len(B) >= 5 or B[0] - last <= tol * B[0], 'stopped without convergence: the iterations are used up, or the progress was watched long enough')
        else:
            ctx.claim(False, 'an unknown verdict')
    else:
        ctx.claim(info is None, 'going on: no verdict')
        ctx.claim(last >= atol, 'going on: the absolute tolerance is not reached')
        ctx.claim(it < mx, 'going on: iterations are left')
    ctx.claim(F[1] == (it >= 4), 'a forced number of iterations is done whatever the residual')


# ------------------------------------------------------------------------------------- direct, Schur, preconditioner
def direct(ctx, n, N=3, COD=True):
    A = np.array(ctx.reals('a', (N, N), -1, 1)).reshape(N, N)
    for i in range(N):
        A[i, i] = A[i, i] + 3.5
    b = np.array(ctx.reals('b', (N,)))
    Ap, bp = shares(A, n), shares(b, n, 1)

    def use(r):
        M, v, _ = wrap(Ap, bp, np.zeros(N), r)
        X, info, beta, it, msg = solver('direct')(M, v, COD=COD)
        return X.V, info, beta, it, None if COD else (M.M.toarray(), v.V.toarray().ravel())
    out = run(ctx, n, use)
    for r, o in enumerate(out):
        ctx.equal(mv(A, o[0]) * 1., b, TOL, 'direct: the solution')
        ctx.claim(o[1] == 0 and o[2] == 0, 'direct: the verdict')
        if not COD:
            ctx.equal(o[4][0], Ap[r], 0, 'direct: the matrix is left alone')
            ctx.equal(o[4][1], bp[r], 0, 'direct: the right-hand side is left alone')


def jacobi(ctx, n):
    from tools.miLinearAlgebra.preconditioners.allocator import PreconditionerAllocator as PA
    N = 4
    A = np.array(ctx.reals('a', (N, N), -2, 2)).reshape(N, N)
    for i in range(N):
        ctx.assume(A[i, i] != 0)
    Ap = shares(A, n)

    def use(r):
        M, _, _ = wrap(Ap, [np.zeros(N)] * n, np.zeros(N), r)
        P = PA('Jacobi')(M)
        return P.invM.toarray(), P.applying_method
    for o in run(ctx, n, use):
        for i in range(N):
            for j in range(N):
                ctx.equal(o[0][i, j] * A[i, i], 1 if i == j else 0, TOL, 'Jacobi: the inverse of the diagonal')
        ctx.claim(o[1] == 'left_multiply_invM', 'Jacobi: applied from the left')


def scipy_one(ctx, n, name, pre=None, info=0, COD=True):
    """the whole system reaches SciPy once, with the parameters; its answer reaches everyone"""
    import scipy.sparse.linalg as L
    N = 3
    A = np.array(ctx.reals('a', (N, N), -2, 2)).reshape(N, N)
    b, x0, ans = (np.array(ctx.reals(k, (N,))) for k in 'bxy')
    tol, atol = ctx.real('tol', 1e-9, 1e-3), ctx.real('atol', 1e-9, 1e-3)
    fn = {'GMRES': 'gmres', 'LGMRES': 'lgmres', 'TFQMR': 'tfqmr', 'GCROTmk': 'gcrotmk'}[name]
    kw = {'GMRES': dict(restart=7), 'LGMRES': dict(m=6, k=2), 'TFQMR': {}, 'GCROTmk': dict(m=6, k=2)}[name]
    wanted = {'GMRES': dict(restart=7), 'LGMRES': dict(inner_m=6, outer_k=2), 'TFQMR': {}, 'GCROTmk': dict(m=6, k=2)}[name]
    seen, lu = [], []

    def stand_in(A_, b_, **k):
        seen.append((np.asarray(A_.toarray()), np.asarray(b_), k))
        return np.array(ans), info

    def ilu(A_, **k):
        lu.append((np.asarray(A_.toarray()), k))

        class LU(object):
            def solve(self, v):
                return v
        return LU()
    keep = getattr(L, fn), L.spilu, L.LinearOperator
    setattr(L, fn, stand_in)
    L.spilu, L.LinearOperator = ilu, lambda shape, f: (shape, f)
    try:
        p = {} if pre is None else {'preconditioner': (pre, dict(drop_tol=1e-3, fill_factor=5))}
        x, i, beta, it = solve(ctx, n, A, b, x0, name, {'TFQMR': 'auto', 'GCROTmk': 'auto'}.get(name, 'sp'), COD, maxiter=9, tol=tol, atol=atol, **kw, **p)
    finally:
        setattr(L, fn, keep[0])
        L.spilu, L.LinearOperator = keep[1:]
    ctx.claim(len(seen) == 1 and i == info, 'one call, its verdict')
    ctx.equal(x, ans, 0, 'the answer')
    residual(ctx, A, b, x, beta, 'SciPy')
    got = seen[0]
    ctx.equal(got[0], A, 1e-12, 'the whole matrix')
    ctx.equal(got[1], b, 1e-12, 'the whole right-hand side')
    k = got[2]
    ctx.equal(k['x0'], x0, 0, 'the initial guess')
    ctx.equal(k['tol'], tol, 0, 'tol')
    ctx.equal(k['atol'], atol, 0, 'atol')
    ctx.claim(k['maxiter'] == 9 and all(k[q] == w for q, w in wanted.items()), 'the parameters')
    ctx.claim((k.get('M') is None) == (pre is None), 'the preconditioner')
    if pre:
        ctx.equal(lu[0][0], A, 1e-12, 'the preconditioner is that of the matrix')
        ctx.claim(lu[0][1]['drop_tol'] == 1e-3 and lu[0][1]['fill_factor'] == 5, 'the parameters of the preconditioner')


def schur(ctx, n, ids, nb, layout=(2, 1, 1), p=(1, 1, 1), sym=True, seed=3):
    """the Schur complement solver returns element-wise solutions of the assembled system"""
    from checks.C12 import matrix, vector
    from objects.CSCG.tools.distribute_local_cochain import distribute_local_cochain
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    K = len(ids)

    def build(r):
        m = C_.mesh3('crazy', layout, c=0.)
        fc = C_.fc3(m, C_.space3(p))
        return m, [fc(i, hybrid=True) if i[0] != '3' else fc(i) for i in ids]
    m, F = build(0)
    E = list(m.elements.indices)
    nb_ = [f.num.basis for f in F]
    rs = np.random.RandomState(seed)
    A, b = {}, {}
    for e in E:
        for i in range(K):
            for j in range(K):
                a = np.round(rs.rand(nb_[i], nb_[j]) - .5, 2)
                if i == j:
                    a = a + np.eye(nb_[i]) * (max(sum(nb_), 4) * (-1. if i == nb else 1.))
                A[e, i, j] = a
        for i in range(K):
            b[e, i] = np.array(ctx.reals('b%d_%d' % (e, i), nb_[i])) if sym else rs.rand(nb_[i])
    objs = [(m, F)] if n == 1 else mpisim.run(n, build)

    def use(r):
        m, F = objs[r]
        M = bmat([[matrix(m, {e: A[e, i, j] for e in E}) for j in range(K)] for i in range(K)])
        M.gathering_matrices = (F, F)
        V = []
        for i in range(K):
            v = vector(m, {e: b[e, i] for e in E})
            v.gathering_matrix = F[i]
            V.append(v)
        V = concatenate(V)
        X, info, beta, it, msg = LinearSystem(M, V).solve('Schur', rank=2, blocks=nb)()
        distribute_local_cochain(X, F)
        return X, info, beta, it, isinstance(msg, str), {e: [f.cochain.local[e] for f in F] for e in X}, list(m.elements.indices)
    out = run(ctx, n, use)
    G = [f.numbering.gathering for f in F]
    sol = {}
    for X, info, beta, it, msg, parts, mine in out:
        ctx.claim((info, beta, msg) == (0, 0, True), 'the verdict')
        ctx.claim(sorted(X) == sorted(mine), 'the solution in every element')
        for e in X:
            ctx.equal(np.concatenate(parts[e]), X[e], 0, 'the parts of the solution')
            for i in range(K):
                ctx.claim(len(parts[e][i]) == nb_[i], 'the parts of the solution')
                for d, x in zip(G[i][e].full_vector, parts[e][i]):
                    if (i, int(d)) in sol:
                        ctx.equal(x, sol[i, int(d)], 1e-9, 'the same value in neighbouring elements')
                    sol[i, int(d)] = x
    res = {}
    for e in E:
        x = [np.array([sol[j, int(d)] for d in G[j][e].full_vector]) for j in range(K)]
        for i in range(K):
            r = -b[e, i]
            for j in range(K):
                r = r + A[e, i, j] @ x[j]
            for d, q in zip(G[i][e].full_vector, r):
                res[i, int(d)] = res.get((i, int(d)), 0) + q
    for k, q in res.items():
        ctx.equal(q, 0., TOL, 'Schur: the residual of the assembled system')


HARNESSES = [
    S_('Schur', C(schur, 1, ('3-f', '2-t'), 1), C(schur, 1, ('2-f', '3-f', '2-t'), 2), C(schur, 1, ('3-f', '2-f', '2-t', '0-t'), 2, seed=5)),
    S_('Schur mpi', C(schur, 2, ('3-f', '2-t'), 1, layout=(1, 2, 1)), C(schur, 3, ('3-f', '2-f', '2-t', '2-t'), 2, layout=(1, 1, 3), seed=6)),
    S_('direct', C(direct, 1), C(direct, 2, 2), C(direct, 3, 2, COD=False)),
    S_('Jacobi', C(jacobi, 1), C(jacobi, 2), C(jacobi, 3)),
    S_('scipy', C(scipy_one, 1, 'GMRES'), C(scipy_one, 2, 'LGMRES', info=4), C(scipy_one, 3, 'TFQMR', COD=False), C(scipy_one, 2, 'GCROTmk'),
       C(scipy_one, 2, 'GMRES', 'spiLU', COD=False)),
    S_('scipy spiLU', C(scipy_one, 2, 'LGMRES', 'spiLU'), C(scipy_one, 1, 'TFQMR', 'spiLU'), C(scipy_one, 3, 'GCROTmk', 'spiLU', info=3), C(scipy_one, 2, 'TFQMR', info=2)),
    S_('stop 1', C(stop, 1)), S_('stop 2', C(stop, 2)), S_('stop 3', C(stop, 3), max_paths=800),
    S_('stop 5', C(stop, 5, True)), S_('stop 8', C(stop, 8, True), max_paths=800), S_('stop 12', C(stop, 12, True), max_paths=800),
    S_('GMRES cycle', C(one_cycle, 1, 'GMRES', '0', 3)),
    S_('GMRES cycle 2', C(one_cycle, 2, 'GMRES', '0', 3, sym=((0, 1),), COD=False)),
    S_('GMRES cycle v1', C(one_cycle, 2, 'GMRES', '1', 3, sym=((1, 2),))),
    S_('GMRES exhausted', C(one_cycle, 1, 'GMRES', '0', 4, zero=(1,), sym=())), S_('GMRES exhausted 2', C(one_cycle, 2, 'GMRES', '1', 3, zero=(0,), sym=((0, 1),))),
    S_('LGMRES cycle', C(one_cycle, 1, 'LGMRES', '0', 3, sym=((2, 1),))), S_('LGMRES exhausted', C(one_cycle, 2, 'LGMRES', '0', 3, zero=(1,), sym=())),
    S_('GMRES cycles', C(cycles, 1, 'GMRES', '0', 2, dict(restart=3)), C(cycles, 3, 'GMRES', '0', 3, dict(restart=3), COD=False), C(cycles, 2, 'GMRES', '1', 3, dict(restart=3))),
    S_('LGMRES cycles', C(cycles, 1, 'LGMRES', '0', 4, dict(m=3, k=1)), C(cycles, 3, 'LGMRES', '0', 2, dict(m=3, k=1), COD=False), C(cycles, 2, 'LGMRES', '0', 3, dict(m=3, k=1))),
    S_('Jacobi cycles', C(cycles, 2, 'GMRES', '0', 2, dict(restart=3), pre='Jacobi'), C(cycles, 2, 'GMRES', '1', 2, dict(restart=3), pre=('Jacobi', {})),
       C(cycles, 1, 'LGMRES', '0', 2, dict(m=3, k=1), pre='Jacobi')),
    S_('converged', C(converged, 1, 'GMRES', '0'), C(converged, 2, 'GMRES', '1')),
    S_('converged 2', C(converged, 2, 'LGMRES', '0'), C(converged, 1, 'BiCGSTAB', 'auto')),
    S_('BiCGSTAB', C(bicgstab, 1, 1), C(bicgstab, 2, 2), C(bicgstab, 1, 3), C(bicgstab, 3, 2, COD=False)),
    S_('BiCGSTAB 2', C(bicgstab, 2, 1, guess=True, COD=False), C(bicgstab, 1, 2, guess=True, N=3)),
]
