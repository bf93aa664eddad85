"""C19: the nonlinear system: the residual is A x + N(x) - b and the Newton matrix is its exact derivative, at every state."""
import itertools
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.C12 import setting, els_of, gvec, offsets, chained, matrix, vector
from checks.C13 import S_, C, side_dofs, parts

BOUNDS = ('2-D, 3-D and triangular meshes of 1-3 elements, one to three unknowns, up to three nonlinear terms per equation; every entry of '
          'every linear block, of every three-dimensional matrix, of the right-hand side and of the state symbolic; two Newton steps; '
          'multi-dimensional matrices of 2 to 4 dimensions with every entry symbolic; 1-3 simulated processes')
ASSUMPTIONS = ['the linear solver is a stand-in that records the system it is given and returns a prescribed increment',
               'what the entries of a multi-dimensional matrix are is C07; the stopping criterion is checked for symbolic norms on its own',
               'several processes are simulated in one Python process (engine/mpisim.py)']


def _A(x):
    return np.asarray(x.toarray() if hasattr(x, 'toarray') else x)


# ------------------------------------------------------------------------------------- multi-dimensional matrices
def mdm(m, data, forms, how='no_cache', calls=None):
    from tools.elementwiseCache.dataStructures.objects.multiDimMatrix.main import MultiDimMatrix
    els = els_of(m)
    if how == 'dict':
        return MultiDimMatrix(m.elements, data, forms, 'no_cache')

    def gen(e):
        return data[e]
    key = {'no_cache': 'no_cache', 'constant': lambda e: '>CT<', 'constant twice': lambda e: '>CT<>CT<',
           'each': lambda e: 'k%d' % e, 'partly': lambda e: '>NC<k%d' % e, 'shared': lambda e: 'k'}[how]
    return MultiDimMatrix(m.elements, gen, list(forms), key)


def tensor(ctx, name, forms, els, same=False):
    shape = tuple(f.num.basis for f in forms)
    out = {}
    for e in els:
        out[e] = out[els[0]] if (same and out) else np.array(ctx.reals('%s%d_' % (name, e), int(np.prod(shape)))).reshape(shape)
    return out


def contract(T, vs):
    """T contracted with vs[i] along every axis i where vs[i] is not None (plain loops: the oracle)"""
    keep = [i for i, v in enumerate(vs) if v is None]
    out = np.zeros(tuple(T.shape[i] for i in keep), dtype=object)
    for ix in itertools.product(*[range(n) for n in T.shape]):
        t = T[ix]
        for i, v in enumerate(vs):
            if v is not None:
                t = t * v[ix[i]]
        k = tuple(ix[i] for i in keep)
        out[k] = out[k] + t
    return out


def algebra(ctx, dim, ids, how, **kw):
    m, F = setting(dim, ids, **kw)
    els = els_of(m)
    n = len(F)
    with ctx.symbolic_code():
        T = tensor(ctx, 'T', F, els, same=how in ('constant', 'constant twice', 'shared'))
        X = [{e: np.array(ctx.reals('x%d_%d_' % (i, e), f.num.basis)) for e in els} for i, f in enumerate(F)]
        s = ctx.real('s')
        M = mdm(m, T, F, how)
        ctx.claim(M.ndim == n and list(M.correspondence) == list(F) and len(M) == len(els), 'what a matrix says of itself')
        ctx.claim(M.whether.inhomogeneous is True, 'all forms differ')
        if n > 1:
            ctx.claim(mdm(m, T, [F[0]] + list(F[1:-1]) + [F[0]], how).whether.inhomogeneous is False, 'a form twice')
        for rep in range(2):                         # a second look gives the same
            for e in els:
                ctx.equal(M[e], T[e], 0, 'entries of element %d' % e)
        for e in els:
            ctx.equal((-M)[e], -T[e], 0, 'negative')
            ctx.equal((M * 2.5)[e], T[e] * 2.5, 1e-13, 'times a number')
            ctx.equal((0.25 * M)[e], T[e] * 0.25, 1e-13, 'a number times it')
            ctx.equal((-(3 * (M * 0.5)))[e], T[e] * -1.5, 1e-13, 'combined')
            ctx.equal(M[e], T[e], 0, 'not changed by operations')
        for f in F:
            f.cochain.local = {e: np.zeros(f.num.basis) for e in els}
        # eliminating one dimension follows the cochain of the form used
        lazy = []
        for d in range(n):
            if n > 1:
                E = M.do.eliminate(d, F[d])
                ctx.claim(list(E.correspondence) == [f for i, f in enumerate(F) if i != d], 'forms after eliminating %d' % d)
                lazy.append((d, E))
        red = [M.do.reduce_to_vector(f) for f in F] if n > 1 else []
        for i, f in enumerate(F):
            f.cochain.local = X[i]
        for d, E in lazy:
            for e in els:
                ctx.equal(E[e], contract(T[e], [X[i][e] if i == d else None for i in range(n)]), 1e-11,
                          'eliminating dimension %d in element %d' % (d, e))
        if n > 2:
            E = M.do.eliminate(n - 1, F[n - 1]).do.eliminate(0, F[0])
            for e in els:
                ctx.equal(E[e], contract(T[e], [X[i][e] if i in (0, n - 1) else None for i in range(n)]), 1e-11, 'eliminating two')
        for d, r in enumerate(red):
            for e in els:
                ctx.equal(_A(r[e]).ravel(), contract(T[e], [X[i][e] if i != d else None for i in range(n)]), 1e-11,
                          'reduced to the vector of form %d' % d)
        # evaluation
        sh = [f.shadow for f in F]
        for i, f in enumerate(sh):
            f.cochain.local = {e: X[i][e] * 2 for e in els}
        for d in range(n):
            pairs = [(F[i], sh[i]) for i in range(n) if i != d]
            for order in (pairs, pairs[::-1]):
                if order:
                    v = M.do.evaluate(order)
                    for e in els:
                        ctx.equal(_A(v[e]).ravel(), contract(T[e], [X[i][e] if i != d else None for i in range(n)]) * 2 ** (n - 1), 1e-11,
                                  'evaluated with all but form %d' % d)
        val = M.do.evaluate([(F[i], sh[i]) for i in range(n)])
        want = 0
        for e in els:
            want = want + contract(T[e], [x[e] for x in X])[()]
        ctx.equal(val, want * 2 ** n, 1e-11, 'evaluated with all forms')
        if n == 2:
            for t in (False, True):
                S = M.do.sparse_matrix(transpose=t)
                G = S.gathering_matrices
                for e in els:
                    ctx.equal(_A(S[e]), T[e].T if t else T[e], 0, 'as a sparse matrix, transposed %s' % t)
        if n == 3:
            for t, u in itertools.permutations(range(3), 2):
                k = 3 - t - u
                S = M.do.derivative_contribution_to(F[t], (F[u], sh[u]), (F[k], sh[k]))
                for e in els:
                    w = contract(T[e], [X[i][e] if i == k else None for i in range(3)]) * 2
                    ctx.equal(_A(S[e]), w if t < u else w.T, 1e-11, 'derivative of the terms of form %d to form %d' % (t, u))
            other = F[0].shadow
            ctx.claim(M.do.derivative_contribution_to(F[0], (other, other)) is None, 'no derivative to an unrelated form')


# ------------------------------------------------------------------------------------- nonlinear systems
class Problem(object):
    """a nonlinear system with symbolic data and what it means"""

    def __init__(self, ctx, dim, ids, lin, non, rhs, method='silly', containers='list', prefix='', **kw):
        m, U = setting(dim, ids, **kw)
        _, V = setting_on(m, U)
        self.m, self.U, self.V, self.method, self.ctx = m, U, V, method, ctx
        self.els = els = els_of(m)
        self.N = offsets(U)[-1]
        n = len(U)
        self.L = {(i, j): {e: np.array(ctx.reals('%sL%d%d_%d_' % (prefix, i, j, e), (V[i].num.basis, U[j].num.basis))) for e in els}
                  for i, j in lin}
        self.R = {i: {e: ctx.reals('%sr%d_%d_' % (prefix, i, e), V[i].num.basis) for e in els} for i in rhs}
        self.T = []                                      # (equation, order of the forms, factor, data)
        for k, (i, order, factor) in enumerate(non):
            forms = [V[i] if o == 't' else U[o] for o in order]
            self.T.append((i, order, factor, tensor(ctx, '%sT%d_' % (prefix, k), forms, els)))
        self.containers = containers

    def system(self):
        from tools.miLinearAlgebra.nonlinearSystem.main import NonLinearSystem
        m, U, V, els = self.m, self.U, self.V, self.els
        n = range(len(U))
        zero = {'list': None, 'tuple': 0}[self.containers]
        A = [[matrix(m, self.L[i, j], 'csr', 'all_diff') if (i, j) in self.L else zero for j in n] for i in n]
        b = [vector(m, self.R[i]) if i in self.R else zero for i in n]
        B = []
        for i in n:
            terms = []
            for k, order, factor, data in self.T:
                if k == i:
                    M = mdm(m, data, [V[i] if o == 't' else U[o] for o in order], 'no_cache')
                    terms.append(M if factor is None else (-M if factor == '-' else factor * M))
            B.append(zero if not terms else terms[0] if len(terms) == 1 else
                     (tuple(terms) if self.containers == 'tuple' else terms))
        if self.containers == 'tuple':
            A, b, B, U, V = tuple(tuple(r) for r in A), tuple(b), tuple(B), tuple(U), tuple(V)
        S = NonLinearSystem(V, A, B, U, b)
        S.chain_method = self.method
        return S

    def numbers(self):
        from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining
        return chained(self.ctx, self.U, GatheringMatrixChaining(*self.U)(chain_method=self.method), self.method, 'unknowns')

    def residual(self, num, x):
        """oracle: the assembled residual and its derivative at the state x (one value per number of the chain)"""
        U, V = self.U, self.V
        F = np.zeros(self.N, dtype=object)
        J = np.zeros((self.N, self.N), dtype=object)
        for e in self.els:
            g = [[num[i, d] for d in gvec(f, e)] for i, f in enumerate(U)]
            for (i, j), D in self.L.items():
                for r, p in enumerate(g[i]):
                    for c, q in enumerate(g[j]):
                        F[p] = F[p] + D[e][r, c] * x[q]
                        J[p, q] = J[p, q] + D[e][r, c]
            for i, D in self.R.items():
                for r, p in enumerate(g[i]):
                    F[p] = F[p] - D[e][r]
            for i, order, factor, data in self.T:
                s = 1 if factor is None else -1 if factor == '-' else factor
                t = order.index('t')
                for ix in itertools.product(*[range(k) for k in data[e].shape]):
                    c = data[e][ix] * s
                    q = [None if o == 't' else g[o][ix[a]] for a, o in enumerate(order)]
                    p = g[i][ix[t]]
                    rest = [k for k in q if k is not None]
                    v = c
                    for k in rest:
                        v = v * x[k]
                    F[p] = F[p] + v
                    for a, k in enumerate(rest):
                        w = c
                        for b_, l in enumerate(rest):
                            if b_ != a:
                                w = w * x[l]
                        J[p, k] = J[p, k] + w
        return F, J


def setting_on(m, U):
    """test forms: one for every unknown, of its kind"""
    out = []
    for f in U:
        g = f.shadow
        out.append(g)
    return m, out


class Recorder(object):
    """stands in for the direct linear solver"""

    def __init__(self, increments):
        self.increments, self.seen = increments, []

    def __enter__(self):
        from tools.miLinearAlgebra.solvers.regular.direct.main import Direct
        from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
        me = self

        def call(self_, A, b, *a, **k):
            me.seen.append((A, b))
            return LocallyFullVector(np.array(me.increments[(len(me.seen) - 1) % len(me.increments)])), 0, 0, 0, 'stand-in'
        self.cls, self.old = Direct, Direct.__call__
        Direct.__call__ = call
        return self

    def __exit__(self, *a):
        self.cls.__call__ = self.old


def dense(A, b):
    return _A(A.M), _A(b.V).ravel()


def state(ctx, P, name):
    return ctx.reals(name, P.N)


def newton(ctx, dim, ids, lin, non, rhs, method='silly', containers='list', customs=(), steps=2, start='vector', derivative=True, **kw):
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    P = Problem(ctx, dim, ids, lin, non, rhs, method, containers, **kw)
    num = P.numbers()
    S = P.system()
    ctx.claim(S.shape == (len(P.V), len(P.U)) and S.num.equations == P.N and S.num.dofs == P.N, 'shape of the system')
    dx = [np.array([((7 * i + 3 * k) % 5 - 2) / 4 + 0.125 for i in range(P.N)]) for k in range(steps)]
    with ctx.symbolic_code():
        x = state(ctx, P, 'x')
        held, fixed = set(), {}
        for c in customs:
            if c[0] == 'hold':
                S.customize.set_no_evaluation(c[1])
                held.add(c[1] % P.N)
            elif c[0] == 'fix':
                v = ctx.real('v%d' % (c[1] % P.N))
                S.customize.set_fixed_solution(c[1], v)
                held.add(c[1] % P.N)
                fixed[c[1] % P.N] = v
            elif c[0] == 'strong':
                f = P.U[c[1]]
                f.BC.boundaries = list(c[2])
                S.customize.apply_strong_BC(c[1], c[1], f if len(c) < 4 else f.BC.interpret)
                d = set()
                for e, side in parts(f, c[2]):
                    d |= {num[c[1], gvec(f, e)[i]] for i in side_dofs(f, side)}
                held |= d
            elif c[0] == 'clear':
                S.customize.clear()
                held, fixed = set(), {}
        if start == 'zero':
            x = np.zeros(P.N)
            x0 = 0
        elif start == 'forms':
            loc = {}
            for i, f in enumerate(P.U):
                loc[i] = {e: np.array([x[num[i, d]] for d in gvec(f, e)]) for e in P.els}
                f.cochain.local = loc[i]
            x0 = LocallyFullVector(tuple(P.U), chain_method=method)
        else:
            x0 = LocallyFullVector(np.array(x))
            for i, f in enumerate(P.U):
                f.cochain.local = {e: np.full(f.num.basis, 77.) for e in P.els}
        S.solve.solver = 'Newton-Raphson'
        S.solve.Newton_Raphson.routine = 'regular'
        with Recorder(dx) as rec:
            out = S.solve(x0, atol=1e-7, maxiter=str(steps), LS_solver_para='direct')
        ctx.claim(len(rec.seen) == steps, 'a forced number of steps')
        ctx.claim(out[3] == steps, 'number of iterations reported')
        y = np.array(x, dtype=object)
        for i, v in fixed.items():
            y[i] = v
        for k in range(steps):
            F, J = P.residual(num, y)
            for i in held:
                F[i] = 0
                J[i, :] = 0
            M, b = dense(*rec.seen[k])
            for i in held:                     # the row says increment = 0 (elements sharing the dof may all say so)
                ctx.claim(M[i, i] >= 1, 'row of a held dof in step %d' % k)
                J[i, i] = M[i, i]
            ctx.equal(b, -F, 1e-10, 'right-hand side of step %d is minus the residual' % k)
            ctx.equal(M, J, 1e-10, 'matrix of step %d' % k)
            if derivative and k == 0 and not held and start == 'vector':
                for j in range(0, P.N, 3):
                    ctx.equal(M[:, j], ctx.deriv(lambda *a: P.residual(num, a)[0], list(x), j), 1e-10,
                              'column %d of the matrix is the derivative of the residual' % j, deriv=True)
            y = y + dx[k]
        ctx.equal(out[0].V, y, 1e-12, 'the result is the last state plus the last increment')
        ctx.equal(out[2], float(np.sum(dx[-1] ** 2) ** 0.5), 1e-12, 'reported norm')
        if start == 'vector':
            ctx.equal(x0.V, np.array(x), 0, 'the initial guess of the caller is not changed')
            for i, f in enumerate(P.U):
                for e in P.els:
                    ctx.equal(f.cochain.local[e], np.full(f.num.basis, 77.), 0, 'the unknowns are not changed by solving')
        out[0].do.distributed_to(*P.U, chain_method=method)
        for i, f in enumerate(P.U):
            for e in P.els:
                ctx.equal(f.cochain.local[e], np.array([y[num[i, d]] for d in gvec(f, e)]), 1e-12, 'distributed result')



def residual(ctx, dim, ids, lin, non, rhs, containers='list', **kw):
    """evaluate_f follows the state it is given; neg is its negative"""
    P = Problem(ctx, dim, ids, lin, non, rhs, 'silly', containers, **kw)
    num = P.numbers()
    S = P.system()
    with ctx.symbolic_code():
        for rep in range(2):
            sh = [f.shadow for f in P.U]
            x = state(ctx, P, 'x%d_' % rep)
            for i, f in enumerate(sh):
                f.cochain.local = {e: np.array([x[num[i, d]] for d in gvec(f, e)]) for e in P.els}
            F, _ = P.residual(num, x)
            for neg in (False, True):
                f = S.do.evaluate_f(sh, neg=neg)
                ctx.claim(len(f) == len(P.U), 'one residual per equation')
                got = np.zeros(P.N, dtype=object)
                for i, fi in enumerate(f):
                    for e in P.els:
                        v = _A(fi[e]).ravel()
                        for r, d in enumerate(gvec(P.U[i], e)):
                            got[num[i, d]] = got[num[i, d]] + v[r]
                ctx.equal(got, -F if neg else F, 1e-10, 'residual, neg=%s' % neg)


def stop(ctx, n):
    """the stopping decision of the Newton iterations, for every history of norms"""
    from tools.miLinearAlgebra.nonlinearSystem.solve.NewtonRaphson.helpers.stop_criterion import nLS_stop_criterion
    with ctx.symbolic_code():
        B = [ctx.real('b%d' % i, 0, 1e9) for i in range(n)]
        atol = ctx.real('atol', 1e-14, 1)
        it = ctx.int('it', 1, 12)
        mx = ctx.int('max', 1, 12)
        for forced in (False, True):
            J, go, info, text = nLS_stop_criterion(list(B), atol, it, '7' if forced else mx)
            if forced:
                ctx.claim(go == (it >= 7), 'a forced number of iterations is the only criterion')
                continue
            if B[-1] < atol:
                ctx.claim(go and info == 0 and J == 1, 'converged is reported as converged')
            else:
                ctx.claim(info != 0 or not go, 'not converged is never reported as converged')
                if it >= mx:
                    ctx.claim(go and info == it, 'the allowed number of iterations')
                elif n == 1:
                    ctx.claim(not go, 'goes on')
                elif B[-1] <= B[-2]:
                    ctx.claim(not go, 'an improving iteration goes on')
                if go and it < mx:
                    ctx.claim(info == -1 and B[-1] > B[-2], 'only a growing norm is a divergence')


def ranks(ctx, n, dim, ids, lin, non, rhs, method='silly', customs=(), **kw):
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining
    keep = {}

    def build(rank):
        P = keep[rank] = Problem(ctx, dim, ids, lin, non, rhs, method, **kw)
        keep[rank, 'S'] = P.system()
        keep[rank, 'chain'] = chain = GatheringMatrixChaining(*P.U)(chain_method=method)
        for f in P.U + P.V:
            f.numbering.gathering
        num, k = {}, 0
        for e in P.els:
            g = [(j, d) for j, f in enumerate(P.U) for d in gvec(f, e)]
            num.update(zip(g, [int(d) for d in chain[e]]))
        keep[rank, 'num'] = num
    mpisim.run(n, build)
    N = keep[0].N
    dx = np.array([((7 * i) % 5 - 2) / 4 + 0.125 for i in range(N)])
    x = ctx.reals('x', N)

    def work(rank):
        P, S = keep[rank], keep[rank, 'S']
        for c in customs:
            if c[0] == 'hold':
                S.customize.set_no_evaluation(c[1])
            elif c[0] == 'fix':
                S.customize.set_fixed_solution(c[1], 0.75)
        S.solve.Newton_Raphson.routine = 'regular'
        out = S.solve(LocallyFullVector(np.array(x)), atol=1e-7, maxiter='1', LS_solver_para='direct')
        v = None
        for i, order, factor, data in P.T:
            M = mdm(P.m, data, [P.V[i] if o == 't' else P.U[o] for o in order])
            for f in set(P.V + P.U):
                f.cochain.local = {e: np.array(ctx.reals('y%d' % e, 16))[:f.num.basis] for e in P.els}
            v = M.do.evaluate([(f, f) for f in M.correspondence])
            v = (v, sum(contract(data[e], [f.cochain.local[e] for f in M.correspondence])[()] for e in P.els))
        return out[0].V, v
    with ctx.symbolic_code():
        with Recorder([dx]) as rec:
            got = mpisim.run(n, work)
    M = sum(_A(A.M) for A, b in rec.seen)
    b = sum(_A(b.V).ravel() for A, b in rec.seen)
    F = J = 0
    y = np.array(x, dtype=object)
    held = set()
    for c in customs:
        held.add(c[1] % N)
        if c[0] == 'fix':
            y[c[1] % N] = 0.75
    for r in range(n):
        f, j = keep[r].residual(keep[r, 'num'], y)
        F, J = F + f, J + j
    for i in held:
        F[i] = 0
        J[i, :] = 0
        J[i, i] = 1
    ctx.equal(b, -F, 1e-10, '%d processes: right-hand side' % n)
    ctx.equal(M, J, 1e-10, '%d processes: matrix' % n)
    for r in range(n):
        ctx.equal(got[r][0], y + dx, 1e-12, '%d processes: result of process %d' % (n, r))
    if got[0][1] is not None:
        want = sum(g[1][1] for g in got)
        for g in got:
            ctx.equal(g[1][0], want, 1e-10, '%d processes: a fully evaluated term' % n)


E = ('0-f-o', '1-f-o', '2-f-o')
full2 = [(0, 0), (0, 1), (1, 0), (1, 1)]
HARNESSES = [
    S_('matrices 2D', C(algebra, 2, ('0-f-o', '1-f-o', '2-f-o'), 'no_cache', layout=(2, 1), p=(1, 1)),
       C(algebra, 2, ('0-f-o', '1-f-o', '2-f-o'), 'constant', layout=(2, 1), p=(1, 1)),
       C(algebra, 2, ('2-f-o', '1-f-o', '0-f-o'), 'each', layout=(2, 1), p=(1, 1))),
    S_('matrices 2D caches', C(algebra, 2, ('0-f-o', '2-f-o'), 'constant twice', layout=(2, 1), p=(1, 1)),
       C(algebra, 2, ('1-f-o', '0-f-o'), 'dict', layout=(2, 1), p=(1, 1)),
       C(algebra, 2, ('1-f-o', '0-f-o'), 'partly', layout=(2, 1), p=(1, 1)),
       C(algebra, 2, ('1-f-o', '0-f-o'), 'shared', layout=(2, 1), p=(1, 1)),
       C(algebra, 2, ('1-f-o',), 'each', layout=(2, 1), p=(1, 2)),
       C(algebra, 2, ('2-f-o', '0-f-o', '1-f-o', '2-f-i'), 'no_cache', layout=(2, 1), p=(1, 1))),
    S_('matrices others', C(algebra, 3, ('3-f', '2-f', '0-f'), 'no_cache', layout=(2, 1, 1), p=(1, 1, 1)),
       C(algebra, 'tri', ('0-f-o', '1-f-o', '2-f-o'), 'no_cache')),
    S_('one unknown', C(newton, 2, ('0-f-o',), [(0, 0)], [], [0], layout=(2, 1), p=(1, 1)),
       C(newton, 2, ('1-f-o',), [], [], [0], layout=(2, 1), p=(1, 1)) if False else
       C(newton, 2, ('2-f-o',), [(0, 0)], [], [], layout=(2, 2), p=(1, 1))),
    S_('two unknowns', C(newton, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None)], [0, 1], layout=(2, 1), p=(1, 1)),
       C(newton, 2, ('2-f-o', '0-f-o'), [(0, 0), (1, 1)], [(1, (0, 't', 1), '-'), (0, (1, 0, 't'), 0.25)], [1], layout=(2, 1), p=(1, 1))),
    S_('two unknowns sequent', C(newton, 2, ('0-f-o', '1-f-o'), [(0, 0), (1, 1)], [(1, (0, 't', 1), None)], [0], 'sequent', layout=(2, 1),
                                 p=(1, 1), start='forms')),
    S_('several terms', C(newton, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None), (0, (1, 't', 0), 2.0), (0, (0, 1, 't'), '-')], [0, 1],
                          layout=(2, 1), p=(1, 1)),
       C(newton, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None), (0, (1, 't', 0), 2.0)], [1], containers='tuple', layout=(2, 1), p=(1, 1))),
    S_('Euler like', C(newton, 2, E, [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 0)], [(0, (1, 0, 't'), 0.25)], [0], layout=(2, 1), p=(1, 1),
                       customs=[('hold', -1)])),
    S_('terms only', C(newton, 2, ('0-f-o', '2-f-o'), [(1, 1)], [(0, ('t', 0, 1), None)], [], layout=(2, 1), p=(1, 1)),
       C(newton, 2, ('0-f-o', '2-f-o'), [(0, 0)], [(1, (0, 1, 't'), None)], [0], layout=(2, 1), p=(1, 1), start='zero')),
    S_('held and fixed', C(newton, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None)], [0, 1], layout=(2, 1), p=(1, 1),
                           customs=[('fix', 3), ('hold', -1), ('hold', 0)]),
       C(newton, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None)], [0, 1], layout=(2, 1), p=(1, 1),
         customs=[('fix', 3), ('clear',), ('fix', -1), ('fix', 2)], start='zero')),
    S_('strong', C(newton, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None)], [0, 1], layout=(2, 2), p=(1, 1),
                   customs=[('strong', 0, ('Upper', 'Left'))]),
       C(newton, 2, ('2-f-o', '1-f-o'), full2, [(0, ('t', 0, 1), None)], [0, 1], layout=(2, 1), p=(1, 1),
         customs=[('strong', 1, ('Right',), 'itp'), ('hold', 0)], method='sequent')),
    S_('others', C(newton, 3, ('0-f', '3-f'), full2, [(0, ('t', 0, 1), None)], [0, 1], layout=(2, 1, 1), p=(1, 1, 1),
                   customs=[('strong', 0, ('North',))]),
       C(newton, 'tri', ('1-f-o', '2-f-o'), [(0, 0), (0, 1), (1, 0)], [(0, (1, 't', 0), None)], [0])),
    S_('residual', C(residual, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None), (1, (0, 't', 1), None)], [0, 1], layout=(2, 1), p=(1, 1)),
       C(residual, 2, ('0-f-o', '2-f-o'), [(0, 0), (1, 1)], [(0, ('t', 1, 0), 0.5), (0, ('t', 0, 1), None)], [1], layout=(2, 1), p=(1, 1),
         containers='tuple'),
       C(residual, 3, ('0-f', '2-f', '3-f'), [(0, 0), (1, 1), (2, 1)], [(0, ('t', 1, 2), None)], [2], layout=(1, 1, 1), p=(1, 1, 1))),
    S_('stop', C(stop, 1)), S_('stop 2', C(stop, 2)), S_('stop 3', C(stop, 3)),
    S_('processes', C(ranks, 2, 2, ('0-f-o', '2-f-o'), full2, [(0, ('t', 0, 1), None)], [0, 1], layout=(2, 1), p=(1, 1)),
       C(ranks, 3, 2, ('2-f-o', '0-f-o'), [(0, 0), (1, 1)], [(1, (0, 't', 1), None)], [0, 1], layout=(3, 1), p=(1, 1), method='sequent',
         customs=[('hold', -1), ('fix', 0)])),
]
