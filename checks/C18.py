"""C18: distributed vectors and matrices mean the sum of their parts; products, sums, transposes, gathers agree with it."""
import numpy as np
from engine.harness import H
from engine import mpisim

BOUNDS = ('1-3 simulated processes (thorough: 4); vectors of up to 6 entries and matrices up to 5 x 6 with every stored entry symbolic; '
          'row-, column-, master-only, overlapping, empty-part and explicit-zero patterns; csr/csc/lil')
ASSUMPTIONS = ['the processes are simulated in one Python process (engine/mpisim.py): sends are delivered in order, no process fails']


def pattern(kind, n, shape, seed):
    """[rank] -> 0/1 arrays of the stored entries"""
    r, c = shape
    out = [np.zeros(shape, dtype=int) for _ in range(n)]
    for i in range(r):
        for j in range(c):
            s = (3 * i + 5 * j + seed) % 7
            if kind == 'row' and s > 1:
                out[(i + seed) % n][i, j] = 1
            elif kind == 'column' and s > 1:
                out[(j + seed) % n][i, j] = 1
            elif kind == 'master' and s > 1:
                out[0][i, j] = 1
            elif kind == 'last' and s > 1:
                out[n - 1][i, j] = 1
            elif kind == 'shared':
                for k in range(n):
                    if (i + 2 * j + k * 3 + seed) % 4 < 2 and s != 2:
                        out[k][i, j] = 1
            elif kind == 'rows shared' and s > 1:       # no entry, but rows and columns are shared
                out[(i + j + seed) % n][i, j] = 1
            elif kind == 'full':
                for k in range(n):
                    out[k][i, j] = 1
    return out


def parts(ctx, kind, n, shape, name, seed=0):
    P = pattern(kind, n, shape, seed)
    out = []
    for k, p in enumerate(P):
        v = np.array(ctx.reals('%s%d_' % (name, k), shape)).reshape(shape)
        out.append(np.where(p == 1, v, 0).astype(object) if ctx.symbolic else np.where(p == 1, v, 0.))
    return out


def only_master(kind, n, shape, seed):
    return not any(p.any() for p in pattern(kind, n, shape, seed)[1:])


def make(fmt, a):
    import scipy.sparse as sp
    return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'lil': sp.lil_matrix}[fmt](a)


def tot(ps):
    s = ps[0]
    for p in ps[1:]:
        s = s + p
    return s


def dense(x):
    return np.asarray(x.toarray())


def run(ctx, n, f):
    with ctx.symbolic_code():
        return mpisim.run(n, f)


def vecs(out, k):
    return tot([dense(o[k].V).ravel() for o in out])


def mats(out, k):
    return tot([dense(o[k].M) for o in out])


TOL = 1e-9


def global_vectors(ctx, n, kinds, size=5):
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector as G
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as L
    A = parts(ctx, kinds[0], n, (size, 1), 'a')
    B = parts(ctx, kinds[1], n, (size, 1), 'b', 1)
    s = ctx.real('s')

    def use(r):
        a, b = G(make('csc', A[r])), G(make('csr', B[r]))
        res = [a, b, -a, a + b, a - b, a * s, s * a]
        res += [L(a).V, L(b).V, (L(a) + L(b)).V, (L(a) - L(b)).V]
        g = [a.do.gather_V_to_core(core=k) for k in [None] + list(range(n))]
        res.append(g)
        res.append((a.whether.master_dominating, b.whether.master_dominating, a.whether.globally_empty, len(a), a.shape, a.nnz))
        c = G(A[r][:, 0] if r % 2 == 0 else A[r]) if r != 1 or n == 1 else G(None if kinds[0] == 'master' else A[r])
        res.append(c)
        e = G(size) if r == 0 else G(None if r == 1 else size)
        res += [e, e.whether.globally_empty]
        d = a.do.gather_V_to_core(core=n - 1, clean_local=True)
        res.append(d)
        return res
    out = run(ctx, n, use)
    a, b = tot(A).ravel(), tot(B).ravel()
    for k, w, l in ((1, b, 'value'), (2, -a, 'negative'), (3, a + b, 'sum'), (4, a - b, 'difference'), (5, s * a, 'multiple'), (6, s * a, 'multiple (scalar first)'),
                    (13, a, 'made from arrays'), (14, 0 * a, 'empty vector')):
        ctx.equal(vecs(out, k), w, TOL, 'global vector: ' + l)
    for r, o in enumerate(out):
        for k, w, l in ((7, a, 'full'), (8, b, 'full'), (9, a + b, 'sum of full'), (10, a - b, 'difference of full')):
            ctx.equal(o[k], w, TOL, 'locally full vector: %s on every process' % l)
        for k in range(n + 1):
            core = max(k - 1, 0)
            if r == core:
                ctx.equal(o[11][k], a, TOL, 'global vector gathered to a process')
            else:
                ctx.claim(o[11][k] is None, 'gathered to one process only')
        if r == n - 1:
            ctx.equal(o[16], a, TOL, 'global vector gathered and cleaned')
        md, mb, ge, ln, sh, nz = o[12]
        ctx.claim(md == only_master(kinds[0], n, (size, 1), 0) and mb == only_master(kinds[1], n, (size, 1), 1), 'whether everything is on the master')
        ctx.claim(ge is False or not ge, 'a vector with entries is not empty')
        ctx.claim(ln == size and sh == (size, 1), 'length')
        ctx.claim(bool(o[15]), 'an empty vector is globally empty')


def distributed_vectors(ctx, n, kind, size=6):
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector as D
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as L
    A = parts(ctx, kind, n, (size, 1), 'a', 1)

    def use(r):
        a = D(make(('csc', 'csr')[r % 2], A[r]))
        res = [a, L(a).V, [a.do.gather_V_to_core(core=k) for k in [None] + list(range(n))], a.whether.master_dominating, a.whether.globally_empty, None, len(a)]
        res.append(D(A[r][:, 0] if r != n - 1 or r == 0 else (None if kind == 'master' else A[r])))
        res.append(a.do.gather_V_to_core(core=0, clean_local=True))
        return res
    out = run(ctx, n, use)
    a = tot(A).ravel()
    ctx.equal(vecs(out, 7), a, TOL, 'distributed vector made from arrays')
    for r, o in enumerate(out):
        ctx.equal(o[1], a, TOL, 'distributed vector made full on every process')
        for k in range(n + 1):
            core = max(k - 1, 0)
            if r == core:
                ctx.equal(o[2][k], a, TOL, 'distributed vector gathered to process %d' % core)
            else:
                ctx.claim(o[2][k] is None, 'gathered to one process only')
        ctx.claim(o[3] == only_master(kind, n, (size, 1), 1), 'whether everything is on the master')
        ctx.claim(not o[4] and o[6] == size, 'length and emptiness')
    ctx.equal(out[0][8], a, TOL, 'distributed vector gathered and cleaned')


def not_distributed(ctx, n):
    """a vector with an entry stored twice is refused"""
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector as D
    A = parts(ctx, 'full', n, (3, 1), 'a', 0)

    def use(r):
        try:
            D(make('csc', A[r]))
        except AssertionError:
            return True
        return False
    with ctx.symbolic_code():
        for a in A:
            for x in a.ravel():
                ctx.assume(x != 0)
        out = mpisim.run(n, use)
    ctx.claim(out[0], 'an entry stored by several processes is refused')


def matrix_vector(ctx, n, kind, fmt, vkind, shape=(4, 5), seed=0):
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector as G
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector as D
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as L
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as M
    A = parts(ctx, kind, n, shape, 'a', seed)
    B = parts(ctx, vkind, n, (shape[1], 1), 'b', 1)
    dist = vkind in ('row', 'master', 'last')

    def use(r):
        a = M(make(fmt, A[r]))
        b = G(make('csc', B[r]))
        res = [a @ b, a @ L(b)]
        if dist:
            d = D(make('csc', B[r]))
            res += [a @ d, a @ L(d)]
        res.append(a)
        return res
    out = run(ctx, n, use)
    want = tot(A) @ tot(B).ravel()
    for k, l in enumerate(('a global', 'a full', 'a distributed', 'a full (from distributed)')[:len(out[0]) - 1]):
        ctx.equal(vecs(out, k), want, TOL, 'matrix times %s vector' % l)
    ctx.equal(mats(out, -1), tot(A), TOL, 'the product leaves the matrix as it is')


def matrix_algebra(ctx, n, kind, fmt, seed=0, shape=(3, 4)):
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as M
    A = parts(ctx, kind, n, shape, 'a', seed)
    B = parts(ctx, 'shared', n, shape, 'b', 2)
    s = ctx.real('s')

    def use(r):
        a, b = M(make(fmt, A[r])), M(make(fmt, B[r]))
        a.do.claim_distribution_pattern()
        res = [a, -a, a * s, s * a, 2 * a, a + b, a - b, a.T.T]
        t = a.T
        res.append(t)
        res.append(a.whether.regularly_distributed)
        res.append((a.whether.master_dominating, a.whether.globally_empty, a.whether.square, a.shape, a.nnz, a.GLOBAL_approx_nnz))
        res.append(sorted(int(i) for i in a.nonempty_rows))
        res.append(sorted(int(i) for i in a.nonempty_columns))
        res.append([int(i) for i in np.nonzero(a.shared_rows)[0]])
        e = M(shape)
        res.append(e)
        return res
    nz = [np.array([[not (isinstance(x, (int, float)) and x == 0) for x in row] for row in p]) for p in A]
    with ctx.symbolic_code():
        for p, z in zip(A, nz):                     # stored entries are not zero, so that patterns are definite
            for x in p[z]:
                ctx.assume(x != 0)
        out = mpisim.run(n, use)
    a, b = tot(A), tot(B)
    for k, w, l in ((0, a, 'value'), (1, -a, 'negative'), (2, s * a, 'multiple'), (3, s * a, 'multiple (scalar first)'), (4, 2 * a, 'double'),
                    (5, a + b, 'sum'), (6, a - b, 'difference'), (7, a, 'transposed twice'), (8, a.T, 'transpose'), (14, 0 * a, 'empty matrix')):
        ctx.equal(mats(out, k), w, TOL, 'matrix: ' + l)
    pats = [np.array(p) for p in pattern(kind, n, shape, seed)]
    rows = [sorted(set(np.nonzero(p)[0].tolist())) for p in pats]
    cols = [sorted(set(np.nonzero(p)[1].tolist())) for p in pats]
    drow, dcol = sum(map(len, rows)) == len(set(sum(rows, []))), sum(map(len, cols)) == len(set(sum(cols, [])))
    want = 'row' if fmt == 'csr' and drow else 'column' if fmt == 'csc' and dcol else False
    for r, o in enumerate(out):
        ctx.claim(o[9] == want, 'distribution pattern %s/%s: %s' % (kind, fmt, want))
        md, ge, sq, sh, nnz, gn = o[10]
        ctx.claim(md == (not any(p.any() for p in pats[1:])) and not ge and sq == (shape[0] == shape[1]) and sh == shape, 'facts about a matrix')
        ctx.claim(nnz == pats[r].sum() and gn == sum(p.sum() for p in pats), 'number of stored entries')
        ctx.claim(o[11] == rows[r], 'nonempty rows')
        ctx.claim(o[12] == cols[r], 'nonempty columns')
        ctx.claim(o[13] == [i for i in rows[r] if any(i in rows[q] for q in range(n) if q != r)], 'shared rows')


def matrix_product(ctx, n, ka, fa, kb, fb, shape=(2, 3, 2), claim=True):
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as M
    A = parts(ctx, ka, n, shape[:2], 'a', 0)
    B = parts(ctx, kb, n, shape[1:], 'b', 1)

    def use(r):
        a, b = M(make(fa, A[r])), M(make(fb, B[r]))
        a.do.claim_distribution_pattern()
        b.do.claim_distribution_pattern()
        md = a.whether.master_dominating and b.whether.master_dominating
        if not md and not a.whether.regularly_distributed and not b.whether.regularly_distributed:
            return [None]
        c = a @ b
        return [c, a, b, c.T if not md else c, c @ a if shape[0] == shape[2] else None]
    out = run(ctx, n, use)
    if out[0][0] is None:
        ctx.claim(ka in ('shared', 'rows shared', 'full') or fa == 'csr' and ka == 'column' or fa == 'csc' and ka == 'row', 'a regular matrix is recognised')
        ctx.claim(kb in ('shared', 'rows shared', 'full') or fb == 'csr' and kb == 'column' or fb == 'csc' and kb == 'row', 'a regular matrix is recognised')
        return
    want = tot(A) @ tot(B)
    ctx.equal(mats(out, 0), want, TOL, 'product of matrices')
    ctx.equal(mats(out, 1), tot(A), TOL, 'the product leaves its factors')
    ctx.equal(mats(out, 2), tot(B), TOL, 'the product leaves its factors')
    if shape[0] == shape[2]:
        ctx.equal(mats(out, 4), want @ tot(A), TOL, 'product with a product')


def gather_matrix(ctx, n, kind, fmt, split=50000000, shape=(5, 4), seed=0, core=None):
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as M
    A = parts(ctx, kind, n, shape, 'a', seed)

    def use(r):
        a = M(make(fmt, A[r]))
        res = [a.do.gather_M_to_core(core=k) for k in [None] + list(range(n))]
        before = dense(a.M)
        if core is None:
            m = a.do.gather_M_to_core(clean_local=True, splitting_factor=split)
        else:
            m = a.do.gather_M_to_core(core=core, clean_local=True)
        return res, before, m, a
    out = run(ctx, n, use)
    a = tot(A)
    md = not any(p.any() for p in pattern(kind, n, shape, seed)[1:])
    for r, (res, before, m, g) in enumerate(out):
        ctx.equal(before, A[r], TOL, 'gathering leaves the parts')
        for k in range(n + 1):
            c = max(k - 1, 0)
            ctx.equal(dense(res[k]), a if c == r else 0 * a, TOL, 'gathered matrix')
        c = core or 0
        ctx.equal(dense(m), a if r == c else 0 * a, TOL, 'matrix gathered and cleaned')
        ctx.equal(dense(g.M), a if r == c else 0 * a, TOL, 'matrix after being gathered and cleaned')


def adjust(ctx, n, kind, fmt):
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as M
    A = parts(ctx, kind, n, (4, 4), 'a', 0)
    s = ctx.real('s')

    def use(r):
        a = M(make(fmt, A[r]))
        a.adjust.___PRIVATE_clear_row___(2)
        a.adjust.___PRIVATE_set_value___(2, 1, s)
        a.adjust.___PRIVATE_set_value___(0, 3, 2 * s)
        return [a]
    out = run(ctx, n, use)
    w = np.array(tot(A), dtype=object if ctx.symbolic else float)
    w[2, :] = 0
    w[2, 1] = s
    w[0, 3] = 2 * s
    ctx.equal(mats(out, 0), w, TOL, 'matrix with a row cleared and entries set')


def history(ctx, n, fmt):
    """vectors and matrices are used again and again"""
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector as G
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as L
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix as M
    A = parts(ctx, 'row' if fmt == 'csr' else 'column', n, (3, 3), 'a', 0)
    x = parts(ctx, 'shared', n, (3, 1), 'x', 0)

    def use(r):
        a, v = M(make(fmt, A[r])), G(make('csc', x[r]))
        a.do.claim_distribution_pattern()
        res = []
        w = v
        for k in range(3):
            w = a @ w - v * 2
            res.append(w)
        t = (a.T @ a) @ v
        u = a.T @ (a @ L(v))
        return res + [t, u, a @ (v + w) - a @ w]
    out = run(ctx, n, use)
    a, v = tot(A), tot(x).ravel()
    w = v
    for k in range(3):
        w = a @ w - v * 2
        ctx.equal(vecs(out, k), w, 1e-7, 'iteration')
    ctx.equal(vecs(out, 3), a.T @ a @ v, 1e-7, 'normal matrix')
    ctx.equal(vecs(out, 4), a.T @ (a @ v), 1e-7, 'transpose applied')
    ctx.equal(vecs(out, 5), a @ v, 1e-7, 'linearity')


def several(ctx, cases):
    for f, kw in cases:
        f(ctx, **kw)


HARNESSES = []
for n in (1, 2, 3, 4):
    T = dict(tier='quick' if n < 4 else 'thorough')

    def add(name, *cases):
        HARNESSES.append(H('%s %d' % (name, n), several, cases=[(f, dict(kw, n=n)) for f, kw in cases], **T))
    add('global vectors', *[(global_vectors, dict(kinds=k)) for k in (('row', 'shared'), ('master', 'full'), ('shared', 'last'), ('last', 'master'))])
    add('distributed vectors', *[(distributed_vectors, dict(kind=k)) for k in ('row', 'master', 'last')])
    if n > 1:
        add('not distributed', (not_distributed, {}))
    for fmt in ('csr', 'csc'):
        for c in ((('row', 'row'), ('column', 'shared'), ('master', 'row')), (('shared', 'shared'), ('rows shared', 'last'), ('last', 'master'))):
            add('matrix times vector %s %s' % (fmt, c[0][0]), *[(matrix_vector, dict(kind=k, fmt=fmt, vkind=vk)) for k, vk in c])
        for c in (('row', 'column', 'master'), ('shared', 'rows shared', 'last')):
            add('matrix algebra %s %s' % (fmt, c[0]), *[(matrix_algebra, dict(kind=k, fmt=fmt)) for k in c])
        add('history %s' % fmt, (history, dict(fmt=fmt)))
        add('gather matrix %s' % fmt, *[(gather_matrix, dict(kind=k, fmt=fmt, split=sp, core=core)) for k, sp, core in
                                        (('row', 50000000, None), ('shared', 50000000, n - 1), ('column', 3, None), ('shared', 4, None))])
        add('gather matrix %s split' % fmt, *[(gather_matrix, dict(kind=k, fmt=fmt, split=sp)) for k, sp in
                                              (('full', 2), ('master', 1), ('last', 1), ('full', 1), ('rows shared', 1))])
        add('gather matrix %s to a process' % fmt, *[(gather_matrix, dict(kind=k, fmt=fmt, core=core)) for k, core in (('last', 0), ('master', n - 1), ('row', n - 1))])
    add('adjust', *[(adjust, dict(kind=k, fmt=fmt)) for fmt, k in (('csr', 'shared'), ('csc', 'row'), ('lil', 'full'))])
    P = [(matrix_product, dict(ka=ka, fa=fa, kb=kb, fb=fb)) for ka, fa, kb, fb in (
        ('row', 'csr', 'shared', 'csr'), ('column', 'csc', 'rows shared', 'csr'), ('shared', 'csr', 'column', 'csc'), ('rows shared', 'csc', 'row', 'csr'),
        ('row', 'csr', 'column', 'csc'), ('column', 'csc', 'row', 'csr'), ('master', 'csr', 'master', 'csc'), ('master', 'csc', 'shared', 'csc'),
        ('row', 'csr', 'last', 'csr'), ('last', 'csc', 'full', 'csc'), ('shared', 'csr', 'shared', 'csr'))]
    add('matrix product', *P[:6])
    add('matrix product more', *P[6:])
