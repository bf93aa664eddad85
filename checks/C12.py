"""C12: assembly sums exactly the local contributions; distributing inverts it; global and local numbers are inverse."""
import itertools
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.common import mesh2, mesh3, space2, space3, fc2, fc3, tri

BOUNDS = ('2-D, 3-D and triangular meshes of 2-6 elements (several regions, periodic), 1-3 forms chained either way, all entries of '
          'all local blocks symbolic; both formats; histories of changing entries under every lock; 1-3 simulated processes')
ASSUMPTIONS = ['with a locked sparsity pattern the pattern stays (the documented contract of the lock)',
               'several processes are simulated in one Python process (engine/mpisim.py)']


# ---------------------------------------------------------------------------------------- the setting
def setting(dim, ids, layout=None, p=None, ID=None, kw=None, hybrid=False):
    if dim == 3:
        m = mesh3(ID or 'crazy', layout or (2, 1, 2), **(dict(c=0.1) if kw is None else kw))
        fc = fc3(m, space3(p or (1, 1, 1)))
    elif dim == 2:
        m = mesh2(ID or 'crazy', layout or (2, 2), **(dict(c=0) if kw is None else kw))
        fc = fc2(m, space2(p or (1, 2)))
    else:
        fc = tri(layout or 'square', p or 1, **(dict(K=1) if kw is None else kw))
    out = []
    for i in ids:
        if '-t' in i and dim != 2 or '-f' in i and (dim == 3 and i[0] != '3' or dim == 2 and i[0] != '2'):
            out.append(fc(i, hybrid=hybrid))
        else:
            out.append(fc(i))
    return out[0].mesh, out


def els_of(m):
    return list(m.elements.indices)


def gvec(f, e):
    return [int(d) for d in f.numbering.gathering[e].full_vector]


def offsets(forms):
    o = [0]
    for f in forms:
        o.append(o[-1] + f.numbering.gathering.global_num_dofs)
    return o


def chained(ctx, forms, cgm, method, label):
    """{(form, its dof): number in the chain}; checks that it is a numbering"""
    m = forms[0].mesh
    num = {}
    for e in els_of(m):
        v = [int(d) for d in cgm[e]]
        k = 0
        for j, f in enumerate(forms):
            for d in gvec(f, e):
                ctx.claim(num.setdefault((j, d), v[k]) == v[k], label + ': a dof has one number in the chain')
                k += 1
        ctx.claim(k == len(v), label + ': length of a chained vector')
    off = offsets(forms)
    ctx.claim(sorted(num.values()) == list(range(off[-1])), label + ': the numbers of the chain are 0..N-1, each once')
    ctx.claim(cgm.global_num_dofs == off[-1], label + ': number of dofs of the chain')
    if method == 'silly' or len(forms) == 1:
        ctx.claim(all(n == off[j] + d for (j, d), n in num.items()), label + ': silly chaining appends')
    else:
        seen = -1
        for e in els_of(m):                       # sequent: numbers are given out element by element
            for d in [int(d) for d in cgm[e]]:
                if d > seen:
                    ctx.claim(d == seen + 1, label + ': sequent chaining numbers element by element')
                    seen = d
    return num


def blocks(ctx, m, rows, cols, name, zero=True):
    """symbolic dense local blocks"""
    r, c = sum(f.num.basis for f in rows), sum(f.num.basis for f in cols)
    out = {}
    for k, e in enumerate(els_of(m)):
        a = np.array(ctx.reals('%s%d_' % (name, e), (r, c)))
        if zero and r * c > 1:
            a[k % r, (k * 2 + 1) % c] = 0
        out[e] = a
    return out


def numbers(rows, e, num):
    return [num[j, d] for j, f in enumerate(rows) for d in gvec(f, e)]


def scatter(els, A, rn, cn, n, k):
    M = np.zeros((n, k), dtype=object)
    for e in els:
        for i, r in enumerate(rn(e)):
            for j, c in enumerate(cn(e)):
                M[r, c] = M[r, c] + A[e][i, j]
    return M


def _mk(fmt):
    import scipy.sparse as sp
    return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix}[fmt]


def matrix(m, data, fmt='csr', ck='no_cache'):
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix as M
    return M(m, lambda i: _mk(fmt)(data[i]), ck)


def vector(m, data):
    import scipy.sparse as sp
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector as V
    return V(m, lambda i: sp.csc_matrix(np.array(data[i]).reshape((-1, 1))), 'no_cache')


# ---------------------------------------------------------------------------------------- assembly
def assemble(ctx, dim, rows, cols, method='silly', lfmt='csr', gfmt='csc', **kw):
    m, R = setting(dim, rows, **kw)
    if cols == rows:
        Cs = R
    else:
        _, Cs = setting(dim, cols, **kw)
    if Cs is not R:                                # the same mesh for all
        fs = setting(dim, list(rows) + list(cols), **kw)
        m, R, Cs = fs[0], fs[1][:len(rows)], fs[1][len(rows):]
    els = els_of(m)
    with ctx.symbolic_code():
        data = blocks(ctx, m, R, Cs, 'a')
        A = matrix(m, data, lfmt)
        A.assembler.chain_method = method
        A.assembler.format = gfmt
        A.gathering_matrices = (R if len(R) > 1 else R[0], Cs if len(Cs) > 1 else Cs[0])
        rn = chained(ctx, R, A.gathering_matrices[0], method, 'rows')
        cn = chained(ctx, Cs, A.gathering_matrices[1], method, 'columns')
        want = scatter(els, data, lambda e: numbers(R, e, rn), lambda e: numbers(Cs, e, cn), offsets(R)[-1], offsets(Cs)[-1])
        for r in range(2):
            G = A.assembled
            ctx.claim(G.M.__class__.__name__ == gfmt + '_matrix', 'format of the assembled matrix')
            ctx.equal(np.asarray(G.M.toarray()), want, 1e-9, 'assembled matrix')
        bd = {e: ctx.reals('b%d_' % e, (sum(f.num.basis for f in R),)) for e in els}
        b = vector(m, bd)
        b.assembler.chain_method = method
        b.gathering_matrix = R if len(R) > 1 else R[0]
        vn = chained(ctx, R, b.gathering_matrix, method, 'vector')
        ctx.claim(vn == rn, 'matrix rows and vector have the same chain')
        wv = np.zeros(offsets(R)[-1], dtype=object)
        for e in els:
            for i, r in enumerate(numbers(R, e, vn)):
                wv[r] = wv[r] + bd[e][i]
        B = b.assembled
        ctx.equal(np.asarray(B.V.toarray()).ravel(), wv, 1e-9, 'assembled vector')
        ctx.equal(np.asarray(B.do.gather_V_to_core()), wv, 1e-9, 'gathered vector')


def history(ctx, dim, ids, method='silly', fmt='csr', **kw):
    """entries change between assemblies, under every lock"""
    m, R = setting(dim, ids, **kw)
    els = els_of(m)
    with ctx.symbolic_code():
        data = {}
        A = matrix(m, data, fmt)
        A.assembler.chain_method = method
        A.gathering_matrices = (R, R)
        vd = {}
        b = vector(m, vd)
        b.assembler.chain_method = method
        b.gathering_matrix = R
        num = chained(ctx, R, A.gathering_matrices[0], method, 'chain')
        n = offsets(R)[-1]
        k = [0]

        def change(zeros=0):
            """new entries; `zeros` picks the sparsity pattern"""
            k[0] += 1
            for q, e in enumerate(els):
                a = np.array(ctx.reals('a%d_%d_' % (k[0], e), (sum(f.num.basis for f in R),) * 2))
                for i in range(a.shape[0]):
                    for j in range(a.shape[1]):
                        if (i + 2 * j + q) % 3 == zeros:
                            a[i, j] = 0
                data[e] = a
                vd[e] = ctx.reals('b%d_%d_' % (k[0], e), (sum(f.num.basis for f in R),))
            return want()

        def want():
            w = np.zeros(n, dtype=object)
            for e in els:
                for i, r in enumerate(numbers(R, e, num)):
                    w[r] = w[r] + vd[e][i]
            M = scatter(els, data, lambda e: numbers(R, e, num), lambda e: numbers(R, e, num), n, n)
            return M, w

        def same(w, label, vec=None):
            ctx.equal(np.asarray(A.assembled.M.toarray()), w[0], 1e-9, label)
            ctx.equal(np.asarray(b.assembled.V.toarray()).ravel(), (vec or w)[1], 1e-9, label + ' (vector)')
        same(change(), 'first assembly')
        same(change(1), 'entries and pattern changed')
        A.do.lock_sparsity()
        same(change(2), 'pattern locked, first')
        same(change(2), 'pattern locked, entries changed')
        same(want(), 'pattern locked, nothing changed')
        same(change(2), 'pattern locked, entries changed again')
        A.do.unlock_sparsity()
        same(change(0), 'pattern unlocked and changed')
        A.do.lock_sparsity()
        same(change(1), 'new pattern locked, first')
        same(change(1), 'new pattern locked, entries changed')
        A.do.unlock_sparsity()
        A.do.lock_assembled_matrix()
        old = change(0)
        same(old, 'assembled matrix locked, first')
        new = change(0)
        same(old, 'assembled matrix locked: kept', new)
        A.do.unlock_assembled_matrix()
        same(new, 'assembled matrix unlocked: current entries')
        same(change(1), 'assembled matrix unlocked, entries changed')
        A.do.lock_assembled_matrix()
        A.do.lock_sparsity()
        old = change(2)
        same(old, 'both locked')
        new = change(2)
        A.do.unlock_assembled_matrix()
        same(new, 'assembled matrix unlocked, pattern still locked')
        A.assembler.format = 'csr'
        same(change(2), 'other format, pattern still locked')


def find(ctx, dim, ids, method, **kw):
    """global -> local -> global"""
    from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining as G
    m, R = setting(dim, ids, **kw)
    els = els_of(m)
    cgm = G(*R)(chain_method=method)
    num = chained(ctx, R, cgm, method, method)
    where = {}
    for e in els:
        for k, d in enumerate(numbers(R, e, num)):
            where.setdefault(d, []).append((e, k))
    n = len(where)
    E, L = cgm.do.find.elements_and_local_indices_of_dofs(list(range(n)))
    for d in range(n):
        ctx.claim(sorted(zip(E[d], L[d])) == sorted(where[d]), 'find dofs')
        for r in range(2):
            e, l = cgm.do.find.elements_and_local_indices_of_dof(d)
            ctx.claim(sorted(zip(e, l)) == sorted(where[d]), 'find a dof')
        e, l = cgm.do.find.elements_and_local_indices_of_dof(d - n)
        ctx.claim(sorted(zip(e, l)) == sorted(where[d]), 'find a dof counted from the end')
        if method == 'silly':
            e, w = cgm.do.find.elements_contain_dof_numbered(d)
            ctx.claim(sorted(e) == sorted(x for x, _ in where[d]) and (w, d - offsets(R)[w]) in num and offsets(R)[w] <= d < offsets(R)[w + 1],
                      'elements of a dof and its form')
    ctx.claim(sorted(cgm) == sorted(els) and len(cgm) == len(els), 'elements of the chain')
    ctx.claim(cgm.num_GMs == len(R) and list(cgm.GV_LENs) == [f.num.basis for f in R], 'lengths of the chain')
    k = 0
    for r, f in zip(cgm.___Pr_regular__local_dofs_ranges___, R):
        ctx.claim((r.start, r.stop) == (k, k + f.num.basis), 'local ranges of the chain')
        k += f.num.basis
    if len(R) > 1:
        H_ = R[0].numbering.gathering.do.hstack(*[f.numbering.gathering for f in R[1:]])
        off = offsets(R)
        for e in els:
            ctx.claim(list(H_[e].full_vector) == [off[j] + d for j, f in enumerate(R) for d in gvec(f, e)], 'stacked gathering matrices')


def chains(ctx, dim, ids):
    """many different chains, made again and again: each is its own"""
    from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining as G
    m, R = setting(dim, ids)
    seqs = [s for k in (1, 2, 3) for s in itertools.permutations(range(len(R)), k)]
    for method in ('silly', 'sequent', 'silly'):
        for r in range(2):
            for s in seqs if r == 0 else seqs[::-1]:
                F = [R[i] for i in s]
                chained(ctx, F, G(*F)(chain_method=method), method, '%s %s' % (method, s))


# ---------------------------------------------------------------------------------------- distribution
def conform(ctx, f, name):
    n = f.numbering.gathering.global_num_dofs
    g = ctx.reals(name, (n,))
    return g, {e: np.array([g[d] for d in gvec(f, e)], dtype=object) for e in els_of(f.mesh)}


def distribute(ctx, dim, ids, **kw):
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as L
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector as DV
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector as GV
    from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining as G
    m, R = setting(dim, ids, **kw)
    els = els_of(m)
    off = offsets(R)
    n = off[-1]

    def check(num, V, label, skip=()):
        for j, f in enumerate(R):
            if j in skip:
                continue
            for e in els:
                ctx.equal(np.array(f.cochain.local[e], dtype=object), np.array([V[num[j, d]] for d in gvec(f, e)], dtype=object), 1e-12, label)
    with ctx.symbolic_code():
        silly = {(j, d): off[j] + d for j, f in enumerate(R) for e in els for d in gvec(f, e)}
        seq = chained(ctx, R, G(*R)(chain_method='sequent'), 'sequent', 'chain')
        for k, (label, how, num) in enumerate((('default', {}, silly), ('silly', dict(chain_method='silly'), silly),
                                               ('sequent', dict(chain_method='sequent'), seq),
                                               ('matrix silly', dict(chain_method=G(*R)(chain_method='silly')), silly),
                                               ('matrix sequent', dict(chain_method=G(*R)(chain_method='sequent')), seq))):
            V = ctx.reals('v%d_' % k, (n,))
            v = L(np.array(V))
            v.do.distributed_to(*R, **how)
            check(num, V, 'distributed ' + label)
            ctx.equal(v.V, V, 1e-12, 'distributing leaves the vector as it is')
            w = L(R, chain_method='sequent' if num is seq else 'silly')
            ctx.equal(w.V, V, 1e-12, 'the vector of the coefficients, %s' % label)
            e = [f.cochain.EWC for f in R]
            for f, x in zip(R, e):
                for i in els:
                    ctx.equal(np.asarray(x[i].toarray()).ravel(), np.array(f.cochain.local[i], dtype=object), 1e-12, 'coefficients as element-wise vector')
        if len(R) > 1:
            V = ctx.reals('w', (n,))
            L(np.array(V)).do.distributed_to(None, *R[1:])
            check(silly, V, 'distributed but the first', (0,))
            V = ctx.reals('x', (n,))
            L(np.array(V)).do.distributed_to(*R[:-1], None)
            check(silly, V, 'distributed but the last', (len(R) - 1,))
        V = ctx.reals('y', (n,))
        DV(np.array(V)).do.distributed_to(*R)
        check(silly, V, 'distributed from a distributed vector')
        for j, f in enumerate(R):
            g = f.cochain.globe
            ctx.equal(np.asarray(g.V.toarray()).ravel(), V[off[j]:off[j + 1]], 1e-12, 'global coefficients')
            ctx.equal(g.do.gather_V_to_core(), V[off[j]:off[j + 1]], 1e-12, 'gathered global coefficients')
            ctx.equal(L(g).V, V[off[j]:off[j + 1]], 1e-12, 'global coefficients made full')
            for d in (0, off[j + 1] - off[j] - 1, -1) if hasattr(f.cochain, 'dofwise') else ():
                ctx.equal(f.cochain.dofwise[d], V[off[j]:off[j + 1]][d], 1e-12, 'the coefficient of a dof')
        V = ctx.reals('z', (n,))
        L(GV(np.array(V))).do.distributed_to(*R)
        check(silly, V, 'distributed from a global vector')
        f = R[0]
        X, loc = conform(ctx, f, 'c')
        f.cochain.local = loc
        R[-1].cochain.local = {e: np.array(R[-1].cochain.local[e]) for e in els}
        h = f.__class__(m, f.space, **({} if dim == 'tri' else dict(hybrid=f.whether.hybrid))) if dim != 'tri' else None
        if h is not None:
            h.cochain.globe = f.cochain.globe
            for e in els:
                ctx.equal(np.array(h.cochain.local[e], dtype=object), loc[e], 1e-12, 'global coefficients given to another form')


def system(ctx, dim, ids, method, **kw):
    """a block system from bmat and concatenate: A x = b globally is the same as locally, x distributed"""
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    m, R = setting(dim, ids, **kw)
    els = els_of(m)
    with ctx.symbolic_code():
        n = len(R)
        D = {}
        B = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if (i, j) != (n - 1, n - 1) or n == 1:
                    D[i, j] = blocks(ctx, m, [R[i]], [R[j]], 'a%d%d_' % (i, j))
                    B[i][j] = matrix(m, D[i, j], ('csr', 'csc')[(i + j) % 2], 'all_diff')
        A = bmat(B)
        A.assembler.chain_method = method
        A.gathering_matrices = (R, R)
        num = chained(ctx, R, A.gathering_matrices[0], method, 'chain')
        N = offsets(R)[-1]
        want = np.zeros((N, N), dtype=object)
        for (i, j), d in D.items():
            for e in els:
                for a, r in enumerate(gvec(R[i], e)):
                    for b, c in enumerate(gvec(R[j], e)):
                        want[num[i, r], num[j, c]] = want[num[i, r], num[j, c]] + d[e][a, b]
        ctx.equal(np.asarray(A.assembled.M.toarray()), want, 1e-9, 'assembled block matrix')
        bd = {i: {e: ctx.reals('b%d_%d_' % (i, e), (R[i].num.basis,)) for e in els} for i in range(n)}
        b = concatenate([vector(m, bd[i]) for i in range(n)])
        b.assembler.chain_method = method
        b.gathering_matrix = R
        wv = np.zeros(N, dtype=object)
        for i in range(n):
            for e in els:
                for a, r in enumerate(gvec(R[i], e)):
                    wv[num[i, r]] = wv[num[i, r]] + bd[i][e][a]
        ctx.equal(np.asarray(b.assembled.V.toarray()).ravel(), wv, 1e-9, 'assembled block vector')


# ---------------------------------------------------------------------------------------- several processes
def ranks(ctx, n, dim, ids, method, **kw):
    """the assembled parts of the processes add up to the serial sum, and distributing gives every element its own"""
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as L

    def make(r):
        m, R = setting(dim, ids, **kw)
        for f in R:
            f.numbering.gathering
        return m, R, {e: [gvec(f, e) for f in R] for e in els_of(m)}
    made = mpisim.run(n, make)
    gv = {}
    for _, _, g in made:
        gv.update(g)
    R0 = made[0][1]
    nb = [f.num.basis for f in R0]
    nd = [1 + max(max(g[j]) for g in gv.values()) for j in range(len(nb))]
    N = sum(nd)
    data = {e: np.array(ctx.reals('a%d_' % e, (sum(nb),) * 2)) for e in sorted(gv)}
    vd = {e: ctx.reals('b%d_' % e, (sum(nb),)) for e in sorted(gv)}
    X = ctx.reals('x', (N,))

    def use(r):
        m, R, _ = made[r]
        A = matrix(m, data)
        A.assembler.chain_method = method
        A.gathering_matrices = (R, R)
        b = vector(m, vd)
        b.assembler.chain_method = method
        b.gathering_matrix = R
        M, V = A.assembled, b.assembled
        cg = {e: [int(d) for d in A.gathering_matrices[0][e]] for e in els_of(m)}
        full = L(V).V
        tot = M.do.gather_M_to_core()
        tv = V.do.gather_V_to_core()
        L(np.array(X)).do.distributed_to(*R, chain_method=method)
        loc = {e: [np.array(f.cochain.local[e]) for f in R] for e in els_of(m)}
        back = L(R, chain_method=method).V
        globes = [f.cochain.globe for f in R]
        gs = [L(g).V for g in globes]
        find = A.gathering_matrices[0].do.find.elements_and_local_indices_of_dof(N - 1)
        L([f for f in R]).do.distributed_to(*R)
        loc2 = {e: [np.array(f.cochain.local[e]) for f in R] for e in els_of(m)}
        for f, g in zip(R, globes):
            f.cochain.globe = g
        loc3 = {e: [np.array(f.cochain.local[e]) for f in R] for e in els_of(m)}
        return M, V, cg, full, tot, tv, loc, back, gs, find, loc2, loc3
    with ctx.symbolic_code():
        out = mpisim.run(n, use)
    num = {}
    for o in out:
        for e, v in o[2].items():
            k = 0
            for j, g in enumerate(gv[e]):
                for d in g:
                    ctx.claim(num.setdefault((j, d), v[k]) == v[k], 'all processes give a dof the same number')
                    k += 1
    ctx.claim(sorted(num.values()) == list(range(N)), 'the numbers of the chain are 0..N-1, each once')
    row = {e: [num[j, d] for j, g in enumerate(gv[e]) for d in g] for e in gv}
    want = scatter(sorted(gv), data, row.get, row.get, N, N)
    wv = np.zeros(N, dtype=object)
    for e in sorted(gv):
        for i, r in enumerate(row[e]):
            wv[r] = wv[r] + vd[e][i]
    ctx.equal(sum(np.asarray(o[0].M.toarray()) for o in out), want, 1e-9, 'the parts of the matrix add up')
    ctx.equal(np.asarray(out[0][4].toarray()), want, 1e-9, 'gathered matrix')
    ctx.equal(sum(np.asarray(o[1].V.toarray()).ravel() for o in out), wv, 1e-9, 'the parts of the vector add up')
    ctx.equal(out[0][5], wv, 1e-9, 'gathered vector')
    for r, o in enumerate(out):
        ctx.equal(o[3], wv, 1e-9, 'full vector on every process')
        ctx.equal(o[7], X, 1e-9, 'the vector of the coefficients')
        for j in range(len(nb)):
            ctx.equal(o[8][j], np.array([X[num[j, d]] for d in range(nd[j])], dtype=object), 1e-9, 'global coefficients on every process')
        for e, ls in list(o[6].items()):
            for j, l in enumerate(ls):
                x = np.array([X[num[j, d]] for d in gv[e][j]], dtype=object)
                ctx.equal(l, x, 1e-12, 'distributed coefficients')
                ctx.equal(o[10][e][j], x, 1e-12, 'coefficients after a full vector and back')
                ctx.equal(o[11][e][j], x, 1e-12, 'coefficients after their global vector and back')
        has = sorted((e, k) for e in o[2] for k, d in enumerate(row[e]) if d == N - 1)
        ctx.claim((sorted(zip(*o[9])) if o[9] else []) == has, 'elements of the last dof on every process')


def gathering_vectors(ctx):
    """every documented way to give a gathering vector"""
    from tools.elementwiseCache.gathering.vector import Gathering_Vector as V
    for gv, want in (([3, 1, 2], [3, 1, 2]), ((range(2, 4), range(7, 8)), [2, 3, 7]), (range(1, 4), [1, 2, 3]), (np.array([5, 0]), [5, 0])):
        g = V(0, gv)
        ctx.claim(list(g.full_vector) == want and list(g) == want and len(g) == len(want), 'gathering vector')
        for k, d in enumerate(want):
            ctx.claim(g.index(d) == k and g[k] == d and d in g, 'entries of a gathering vector')


S2 = ('0-f-i', '1-f-o', '2-f-o')
HARNESSES = [
    H('matrix 2D silly', assemble, dim=2, rows=('1-f-o',), cols=('2-f-o',)),
    H('matrix 2D chain silly', assemble, dim=2, rows=('0-f-i', '1-f-i'), cols=('2-f-o', '0-f-o'), layout=(2, 1), lfmt='csc', gfmt='csr'),
    H('matrix 2D chain sequent', assemble, dim=2, rows=('0-f-i', '1-f-o'), cols=('0-f-i', '1-f-o'), layout=(2, 1), method='sequent', lfmt='csc'),
    H('matrix 2D hybrid', assemble, dim=2, rows=('1-f-o', '1-t-o'), cols=('1-f-o', '1-t-o'), layout=(2, 1), p=(1, 1), hybrid=True),
    H('matrix 2D hybrid sequent', assemble, dim=2, rows=('1-f-o', '1-t-o', '2-f-o'), cols=('1-f-o', '1-t-o', '2-f-o'), layout=(2, 2), p=(1, 1),
      hybrid=True, method='sequent'),
    H('matrix 2D periodic', assemble, dim=2, rows=('0-f-o', '2-f-o'), cols=('1-f-o',), layout=(2, 2), p=(1, 1), ID='crazy_periodic', kw=dict(c=0),
      method='sequent'),
    H('matrix 2D cic', assemble, dim=2, rows=('0-f-i',), cols=('0-f-i',), layout=(1, 1), p=(1, 1), ID='cic', kw={}, gfmt='csr'),
    H('matrix 2D chp1', assemble, dim=2, rows=('0-f-i', '1-f-i'), cols=('0-f-i', '1-f-i'), layout=(1, 1), p=(1, 1), ID='chp1', kw={}, method='sequent'),
    H('matrix 3D silly', assemble, dim=3, rows=('0-f', '3-f'), cols=('2-f',), layout=(2, 1, 2)),
    H('matrix 3D sequent', assemble, dim=3, rows=('2-f', '3-f'), cols=('2-f', '3-f'), layout=(2, 2, 1), method='sequent'),
    H('matrix 3D trace', assemble, dim=3, rows=('2-t',), cols=('2-f', '2-t'), layout=(2, 1, 1), hybrid=True, method='sequent'),
    H('matrix 3D edge', assemble, dim=3, rows=('1-e',), cols=('0-e',), layout=(1, 2, 1), hybrid=False),
    H('matrix triangles silly', assemble, dim='tri', rows=('1-f-o', '2-f-o'), cols=('0-f-o',)),
    H('matrix triangles sequent', assemble, dim='tri', rows=('1-f-o', '2-f-o'), cols=('0-f-o', '2-f-o'), method='sequent'),
    H('history 2D', history, dim=2, ids=('2-f-o',), layout=(2, 1)),
    H('history 2D chain', history, dim=2, ids=('0-f-i', '2-f-o'), layout=(2, 1), p=(1, 1), method='sequent', fmt='csc'),
    H('history 3D', history, dim=3, ids=('2-f', '3-f'), layout=(2, 1, 1)),
    H('history triangles', history, dim='tri', ids=('0-f-i',)),
    H('chains 2D', chains, dim=2, ids=('0-f-i', '1-f-o', '2-f-o', '1-f-i')),
    H('chains 3D', chains, dim=3, ids=('0-f', '1-f', '2-f', '3-f')),
    H('chains triangles', chains, dim='tri', ids=('0-f-i', '1-f-o', '2-f-o', '1-f-i')),
    H('gathering vectors', gathering_vectors),
]
for meth in ('silly', 'sequent'):
    HARNESSES += [
        H('find 2D %s' % meth, find, dim=2, ids=S2, method=meth, layout=(2, 3)),
        H('find 2D cic %s' % meth, find, dim=2, ids=('0-f-o', '2-f-o'), method=meth, ID='cic', kw={}, layout=(1, 2)),
        H('find 2D chp2 %s' % meth, find, dim=2, ids=('1-f-i', '0-f-o'), method=meth, ID='chp2', kw={}, layout=(1, 1)),
        H('find 2D periodic %s' % meth, find, dim=2, ids=('2-f-o', '0-f-o'), method=meth, ID='crazy_periodic', kw=dict(c=0), layout=(3, 2)),
        H('find 2D trace %s' % meth, find, dim=2, ids=('1-f-o', '1-t-o'), method=meth, layout=(2, 2), hybrid=True),
        H('find 3D %s' % meth, find, dim=3, ids=('0-f', '1-f', '2-f', '3-f'), method=meth, layout=(2, 2, 2)),
        H('find 3D bridge %s' % meth, find, dim=3, ids=('1-f', '0-f'), method=meth, ID='bridge_arch_cracked', kw={}, layout=(1, 1, 1)),
        H('find 3D trace %s' % meth, find, dim=3, ids=('0-t', '2-f'), method=meth, layout=(2, 1, 2), hybrid=False),
        H('find triangles %s' % meth, find, dim='tri', ids=('0-f-i', '1-f-o', '2-f-o'), method=meth, layout='rand0', p=2, kw={}),
        H('system 2D %s' % meth, system, dim=2, ids=('1-f-o', '2-f-o'), method=meth, layout=(2, 1), p=(1, 1)),
        H('system 3D %s' % meth, system, dim=3, ids=('2-f', '3-f'), method=meth, layout=(1, 2, 1)),
        H('system triangles %s' % meth, system, dim='tri', ids=('0-f-o', '1-f-o'), method=meth),
    ]
HARNESSES += [
    H('distribute 2D', distribute, dim=2, ids=S2, layout=(2, 2), p=(1, 2)),
    H('distribute 2D hybrid', distribute, dim=2, ids=('1-f-o', '0-f-i'), layout=(2, 2), p=(1, 1), hybrid=True),
    H('distribute 2D cic', distribute, dim=2, ids=('0-f-o', '1-f-i'), layout=(1, 1), p=(1, 1), ID='cic', kw={}),
    H('distribute 2D one', distribute, dim=2, ids=('1-f-i',), layout=(2, 1), p=(2, 1)),
    H('distribute 3D', distribute, dim=3, ids=('0-f', '2-f', '3-f'), layout=(2, 1, 2)),
    H('distribute 2D trace', distribute, dim=2, ids=('1-f-o', '1-t-o'), layout=(2, 2), p=(2, 1), hybrid=True),
    H('distribute 3D trace', distribute, dim=3, ids=('2-f', '2-t'), layout=(2, 1, 1), hybrid=True),
    H('distribute 3D trace 0', distribute, dim=3, ids=('0-t', '0-f'), layout=(2, 1, 1), hybrid=False),
    H('distribute 3D local trace', distribute, dim=3, ids=('2-lt', '3-f'), layout=(2, 1, 1), hybrid=True),
    H('distribute triangles', distribute, dim='tri', ids=('0-f-i', '1-f-o', '2-f-o'), p=2),
]
for n in (1, 2, 3):
    for meth in ('silly', 'sequent'):
        HARNESSES += [
            H('processes 2D %d %s' % (n, meth), ranks, n=n, dim=2, ids=('0-f-i', '2-f-o'), method=meth, layout=(2, 2), p=(1, 1)),
            H('processes 2D hybrid %d %s' % (n, meth), ranks, n=n, dim=2, ids=('1-f-o', '1-t-o'), method=meth, layout=(3, 1), p=(1, 1), hybrid=True),
            H('processes 3D %d %s' % (n, meth), ranks, n=n, dim=3, ids=('2-f', '3-f'), method=meth, layout=(2, 1, 2)),
        ]
