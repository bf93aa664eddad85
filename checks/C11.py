"""C11: element-wise (EWC) matrices and vectors obey ordinary linear algebra, whatever is cached."""
import itertools
import numpy as np
from engine.harness import H
from checks.common import mesh2, mesh3, space2, space3, fc2, fc3, tri

BOUNDS = ('local blocks up to 3x3 with symbolic entries, symbolic scalars, 2-6 elements; every generator kind of either operand '
          '(stored, callable, constant, uncached, all different, keyed, identity, empty, customised), every assignment of two '
          'cache keys (one a prefix of the other) to 3 elements and every starting element; expressions up to nesting depth 4')
ASSUMPTIONS = ['matrices to be inverted are regular, divisors non-zero',
               'two elements with the same cache key have the same data (the documented contract of a cache key)']


class D(object):
    """ordinary linear algebra, element by element"""

    def __init__(self, d):
        self.d = d

    def _b(self, o, f):
        return D({e: f(self.d[e], o.d[e]) for e in self.d})

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __matmul__(self, o):
        return self._b(o, lambda a, b: a.dot(b))

    def __neg__(self):
        return D({e: a * -1 for e, a in self.d.items()})

    def __mul__(self, c):
        return D({e: a * c for e, a in self.d.items()})

    __rmul__ = __mul__

    def __truediv__(self, c):
        return D({e: a / c for e, a in self.d.items()})

    @property
    def T(self):
        return D({e: a.T for e, a in self.d.items()})

    @property
    def inv(self):
        def f(a):
            if a.shape == (1, 1):
                return np.array([[1 / a[0, 0]]], dtype=object)
            det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
            return np.array([[a[1, 1] / det, -a[0, 1] / det], [-a[1, 0] / det, a[0, 0] / det]], dtype=object)
        return D({e: f(a) for e, a in self.d.items()})


def dense(x, e):
    y = x[e]
    return np.asarray(y.toarray())


def stack(blocks):
    """bmat of dense blocks, None = zero"""
    els = next(b.d for b in sum(blocks, []) if b is not None)
    out = {}
    for e in els:
        R = [next(b.d[e].shape[0] for b in row if b is not None) for row in blocks]
        Cn = [next(r[j].d[e].shape[1] for r in blocks if r[j] is not None) for j in range(len(blocks[0]))]
        A = np.zeros((sum(R), sum(Cn)), dtype=object)
        for i, row in enumerate(blocks):
            for j, b in enumerate(row):
                if b is not None:
                    A[sum(R[:i]):sum(R[:i + 1]), sum(Cn[:j]):sum(Cn[:j + 1])] = b.d[e]
        out[e] = A
    return D(out)


# ------------------------------------------------------------------------------------- operands
MK = ('dict', 'nc', 'ad', 'ct', 'ctf', 'key', 'id', 'em')
VK = ('vdict', 'vnc', 'vkey', 'vem')


def keys_of(els, name):
    return {e: ('p', 'pp')[(k * 7 + len(name) + ord(name[0])) % 3 % 2] for k, e in enumerate(els)}


def mat(ctx, mesh, name, kind, shape=(2, 2), keys=None, fmt=None, regular=False):
    """(EWC matrix, its blocks). Must be called inside symbolic_code()."""
    import scipy.sparse as sp
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix as M
    els = list(mesh.elements.indices)
    mk = sp.csc_matrix if (fmt or ('csc' if len(name) % 2 == ord(name[0]) % 2 else 'csr')) == 'csc' else sp.csr_matrix

    def new(tag):
        a = ctx.reals('%s%s' % (name, tag), shape)
        if regular:
            ctx.assume(a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0] != 0)
        elif shape != (1, 1) and tag not in ('', 'p'):
            a = np.array(a)
            a[-1, 0] = 0                                      # a structural zero that not every element has
        return a

    if kind in ('id', 'em'):
        ref = {e: np.array(np.eye(shape[0]) if kind == 'id' else np.zeros(shape)) for e in els}
        if kind == 'id':
            return M(mesh, ('identity', shape[0])), D(ref)
        return M(mesh, shape), D(ref)
    if kind in ('ct', 'ctf'):
        a = new('')
        ref = {e: a for e in els}
        m = mk(a)
        return M(mesh, m if kind == 'ct' else (lambda i: m), 'constant'), D(ref)
    if kind == 'key':
        keys = keys or keys_of(els, name)
        vals = {k: new(k) for k in sorted(set(keys.values()))}
        ref = {e: vals[keys[e]] for e in els}
    else:
        ref = {e: new('_%d_' % e) for e in els}
    dat = {e: mk(ref[e]) for e in els}
    if kind == 'dict':
        return M(mesh, dat), D(ref)
    ck = {'nc': 'no_cache', 'ad': 'all_diff', 'key': (lambda i: keys[i])}[kind]
    return M(mesh, lambda i: dat[i].copy(), ck), D(ref)


def vec(ctx, mesh, name, kind, n=2, keys=None):
    import scipy.sparse as sp
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector as V
    els = list(mesh.elements.indices)
    if kind == 'vem':
        return V(mesh, n), D({e: np.zeros((n, 1)) for e in els})
    if kind == 'vkey':
        keys = keys or keys_of(els, name)
        vals = {k: ctx.reals('%s%s' % (name, k), (n, 1)) for k in sorted(set(keys.values()))}
        ref = {e: vals[keys[e]] for e in els}
    else:
        ref = {e: ctx.reals('%s_%d_' % (name, e), (n, 1)) for e in els}
    dat = {e: sp.csc_matrix(ref[e]) for e in els}
    if kind == 'vdict':
        return V(mesh, dat), D(ref)
    return V(mesh, lambda i: dat[i].copy(), {'vnc': 'no_cache', 'vkey': (lambda i: keys[i])}[kind]), D(ref)


def same(ctx, E, R, label, order=None, twice=True, tol=1e-9):
    """every element's block, in the given order of access, and again"""
    els = list(order or R.d)
    for r in range(2 if twice else 1):
        for e in els:
            got = dense(E, e)
            ctx.claim(tuple(got.shape) == tuple(R.d[e].shape), label + ': shape')
            ctx.equal(got, R.d[e], tol, label)


def ops():
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    return bmat, (lambda vs: concatenate(vs)), (lambda x, o: x.___PRIVATE_sum___(o))


def dops():
    def s(x, o):
        for y in o:
            x = x + y
        return x
    return stack, (lambda vs: stack([[v] for v in vs])), s


# expressions: f(A, B, v, w, c, bmat, concatenate, sum)
EXPR = {
    'A+B': lambda A, B, v, w, c, b, k, s: A + B,
    'A-B': lambda A, B, v, w, c, b, k, s: A - B,
    'A@B': lambda A, B, v, w, c, b, k, s: A @ B,
    '-A': lambda A, B, v, w, c, b, k, s: -A,
    'c*A': lambda A, B, v, w, c, b, k, s: c * A,
    'A*c': lambda A, B, v, w, c, b, k, s: A * c,
    'A/c': lambda A, B, v, w, c, b, k, s: A / c,
    'A.T': lambda A, B, v, w, c, b, k, s: A.T,
    'sum': lambda A, B, v, w, c, b, k, s: s(A, [B, A]),
    'bmat': lambda A, B, v, w, c, b, k, s: b([[A, B], [None, A]]),
    'bmat of bmat': lambda A, B, v, w, c, b, k, s: b([[b([[A, B]]), None], [None, b([[B, A]])]]),
    'bmat of parts': lambda A, B, v, w, c, b, k, s: b([[B.T, None, -A], [c * A, A @ B, B + A]]),
    '(A@B).T-B.T@A.T+A': lambda A, B, v, w, c, b, k, s: (A @ B).T - B.T @ A.T + A,
    'c*(A-B)@(A+B)': lambda A, B, v, w, c, b, k, s: c * (A - B) @ (A + B),
    'A@v': lambda A, B, v, w, c, b, k, s: A @ v,
    'v+w': lambda A, B, v, w, c, b, k, s: v + w,
    'v-w': lambda A, B, v, w, c, b, k, s: v - w,
    '-v': lambda A, B, v, w, c, b, k, s: -v,
    'c*v': lambda A, B, v, w, c, b, k, s: c * v,
    'v*c': lambda A, B, v, w, c, b, k, s: v * c,
    'vsum': lambda A, B, v, w, c, b, k, s: s(v, [w, v]),
    'concatenate': lambda A, B, v, w, c, b, k, s: k([v, w, v]),
    'A@(v-B@w)': lambda A, B, v, w, c, b, k, s: A @ (v - B @ w),
    'bmat@concatenate': lambda A, B, v, w, c, b, k, s: b([[A, B], [B.T, None]]) @ k([w, c * v]),
    'concatenate of concatenate': lambda A, B, v, w, c, b, k, s: k([k([w, v]), v + w, k([v, w])]),
}


def _m(dim):
    if dim == 3:
        return mesh3('crazy', (2, 1, 2), c=0.1)
    if dim == 2:
        return mesh2('crazy', (2, 2), c=0)
    return tri('square', 1, K=1)(('0-f-i')).mesh


def pairs(ctx, dim, ka, exprs=None, kbs=MK):
    """all expressions on A of kind ka and B of every kind; v, w of kinds running along"""
    mesh = _m(dim)
    cyc = itertools.cycle(itertools.product(VK, VK))
    with ctx.symbolic_code():
        c = ctx.real('c')
        ctx.assume(c != 0)
        for n, kb in enumerate(kbs):
            for _ in range(3 if n % 2 else 5):
                kv, kw = next(cyc)
            (A, a), (B, b) = mat(ctx, mesh, 'A', ka), mat(ctx, mesh, 'B' + kb, kb)
            (v, x), (w, y) = vec(ctx, mesh, 'v', kv), vec(ctx, mesh, 'w', kw)
            els = list(a.d)
            for m, (name, f) in enumerate(EXPR.items()):
                if exprs and name not in exprs:
                    continue
                k = (m + n) % len(els)
                got, want = f(A, B, v, w, c, *ops()), f(a, b, x, y, c, *dops())
                same(ctx, got, want, '%s with A %s, B %s, v %s, w %s' % (name, ka, kb, kv, kw), els[k:] + els[:k], m % 3 == 0)
            same(ctx, A, a, 'operand A afterwards', twice=False)
            same(ctx, B, b, 'operand B afterwards', twice=False)
            same(ctx, v, x, 'operand v afterwards', twice=False)
            same(ctx, w, y, 'operand w afterwards', twice=False)


def vpairs(ctx, dim):
    """vector operations on every pair of kinds"""
    mesh = _m(dim)
    with ctx.symbolic_code():
        c = ctx.real('c')
        for kv, kw in itertools.product(VK, VK):
            (v, x), (w, y) = vec(ctx, mesh, 'v' + kv, kv), vec(ctx, mesh, 'ww' + kw, kw)
            for name in ('v+w', 'v-w', '-v', 'c*v', 'v*c', 'vsum', 'concatenate', 'concatenate of concatenate'):
                f = EXPR[name]
                got, want = f(None, None, v, w, c, *ops()), f(None, None, x, y, c, *dops())
                same(ctx, got, want, '%s with v %s, w %s' % (name, kv, kw))


def keyed(ctx, expr, first=True):
    """all assignments of two keys, one a prefix of the other, to three elements, and all first elements"""
    mesh = mesh2('crazy', (3, 1), c=0)
    els = list(mesh.elements.indices)
    ka = {e: ctx.choice('key A%d' % e, ['1', '11']) for e in els}
    kb = {e: ctx.choice('key B%d' % e, ['1', '11']) for e in els}
    k = ctx.choice('first', list(range(3))) if first else 0
    with ctx.symbolic_code():
        c = ctx.real('c')
        ctx.assume(c != 0)
        (A, a), (B, b) = mat(ctx, mesh, 'A', 'key', keys=ka), mat(ctx, mesh, 'BB', 'key', keys=kb)
        (v, x), (w, y) = vec(ctx, mesh, 'v', 'vkey', keys=ka), vec(ctx, mesh, 'w', 'vkey', keys=kb)
        got, want = EXPR[expr](A, B, v, w, c, *ops()), EXPR[expr](a, b, x, y, c, *dops())
        same(ctx, got, want, expr, els[k:] + els[:k])


def inverse(ctx, dim):
    mesh = _m(dim)
    with ctx.symbolic_code():
        for ka in ('dict', 'nc', 'ad', 'ct', 'ctf', 'key'):
            A, a = mat(ctx, mesh, 'A' + ka, ka, regular=True)
            B, b = mat(ctx, mesh, 'BB' + ka, 'ad')
            v, x = vec(ctx, mesh, 'v' + ka, 'vnc')
            same(ctx, A.inv, a.inv, 'inverse of ' + ka)
            same(ctx, A @ (A.inv @ v), x, 'A @ A.inv @ v ' + ka, twice=False)
            same(ctx, (A.T.inv @ B), (a.T.inv @ b), 'A.T.inv @ B ' + ka, twice=False)


def rect(ctx, dim):
    """non-square blocks: transposes, products and block matrices put everything in its place"""
    mesh = _m(dim)
    bm, cc, sm = ops()
    db, dc, ds = dops()
    with ctx.symbolic_code():
        c = ctx.real('c')
        (A, a), (B, b), (Cm, cm) = (mat(ctx, mesh, 'A', 'ad', (2, 3)), mat(ctx, mesh, 'BB', 'key', (3, 1)), mat(ctx, mesh, 'C', 'dict', (1, 2)))
        (E, e), (I, i) = mat(ctx, mesh, 'E', 'em', (2, 1)), mat(ctx, mesh, 'I', 'id', (3, 3))
        (u, p), (v, q), (w, r) = vec(ctx, mesh, 'u', 'vdict', 3), vec(ctx, mesh, 'v', 'vnc', 1), vec(ctx, mesh, 'w', 'vkey', 2)
        for label, got, want in (
                ('A@B', A @ B, a @ b), ('A.T', A.T, a.T), ('A@B@C', A @ B @ Cm, a @ b @ cm), ('E+A@B', E + A @ B, e + a @ b),
                ('A@u', A @ u, a @ p), ('I@u', I @ u, i @ p), ('B@v - u', B @ v - u, b @ q - p),
                ('bmat', bm([[A, None, E], [I, B, None], [None, None, Cm @ A @ B]]),
                 db([[a, None, e], [i, b, None], [None, None, cm @ a @ b]])),
                ('bmat 1 row', bm([[A, E]]), db([[a, e]])), ('bmat 1 column', bm([[A], [I]]), db([[a], [i]])),
                ('bmat with an empty first row', bm([[None, A], [Cm, None]]), db([[None, a], [cm, None]])),
                ('bmat.T', bm([[A, E], [None, B]]).T, db([[a, e], [None, b]]).T),
                ('concatenate', cc([u, v, w]), dc([p, q, r])), ('concatenate one', cc([w]), dc([r])),
                ('system', bm([[A, E], [I, B]]) @ cc([u, v]) - cc([w, c * u]), db([[a, e], [i, b]]) @ dc([p, q]) - dc([r, c * p]))):
            same(ctx, got, want, label)
        ctx.claim(tuple(bm([[A, None, E], [I, B, None]]).bmat_shape) == (2, 3), 'bmat_shape')
        ctx.claim(tuple(cc([u, v, w]).con_shape) == (3,), 'con_shape')


def blocks(ctx, dim):
    """the blocks of a block matrix or vector are the blocks it was made of"""
    mesh, F = _forms(dim)
    bm, cc, sm = ops()
    f, g = F
    nf, ng = f.num.basis, g.num.basis
    with ctx.symbolic_code():
        (A, a), (B, b) = mat(ctx, mesh, 'A', 'ad', (nf, nf)), mat(ctx, mesh, 'BB', 'ct', (ng, nf))
        (v, x), (w, y) = vec(ctx, mesh, 'v', 'vnc', nf), vec(ctx, mesh, 'w', 'vdict', ng)
        A.gathering_matrices = (f, f)
        B.gathering_matrices = (g, f)
        v.gathering_matrix = f
        w.gathering_matrix = g
        M = bm([[A, None], [B, None]])
        M.gathering_matrices = ([f, g], [f, g])
        same(ctx, M.blocks[0, 0], a, 'block 00')
        same(ctx, M.blocks[1, 0], b, 'block 10')
        same(ctx, M.blocks[0, 1], D({e: np.zeros((nf, ng)) for e in a.d}), 'block 01')
        same(ctx, M.blocks[1, 1], D({e: np.zeros((ng, ng)) for e in a.d}), 'block 11')
        same(ctx, M.blocks[0:2, 0:1], stack([[a], [b]]), 'blocks [:, 0:1]')
        V = cc([v, w])
        same(ctx, V.blocks[0], x, 'vector block 0')
        same(ctx, V.blocks[1], y, 'vector block 1')
        same(ctx, V.blocks[0:2], stack([[x], [y]]), 'vector blocks')


def _forms(dim):
    if dim == 3:
        m = mesh3('crazy', (2, 1, 1), c=0.1)
        fc = fc3(m, space3((1, 1, 1)))
        return m, (fc('2-f'), fc('3-f'))
    if dim == 2:
        m = mesh2('crazy', (2, 2), c=0)
        fc = fc2(m, space2((1, 1)))
        return m, (fc('1-f-o'), fc('2-f-o'))
    t = tri('square', 1, K=1)
    f, g = t('1-f-o'), t('2-f-o')
    return f.mesh, (f, g)


def gathering(ctx, dim):
    """gathering matrices follow their rows and columns through the operations that keep them"""
    mesh, (f, g) = _forms(dim)
    nf, ng = f.num.basis, g.num.basis
    with ctx.symbolic_code():
        B, b = mat(ctx, mesh, 'B', 'ct', (ng, nf))
        v, x = vec(ctx, mesh, 'v', 'vnc', nf)
        B.gathering_matrices = (g, f)
        v.gathering_matrix = f
        c = ctx.real('c')
        ctx.assume(c != 0)
        R, Cc = B.gathering_matrices
        for label, M, want in (('B.T', B.T, (Cc, R)), ('c*B', c * B, (R, Cc)), ('B*c', B * c, (R, Cc)), ('-B', -B, (R, Cc)),
                               ('B/c', B / c, (R, Cc)), ('(-B).T', (-B).T, (Cc, R))):
            for k in (0, 1):
                for e in b.d:
                    ctx.claim(list(M.gathering_matrices[k][e]) == list(want[k][e]), 'gathering of %s, direction %d' % (label, k))
        for label, w in (('-v', -v), ('c*v', c * v), ('v*c', v * c), ('sum', v.___PRIVATE_sum___([v]))):
            for e in b.d:
                ctx.claim(list(w.gathering_matrix[e]) == list(v.gathering_matrix[e]), 'gathering of ' + label)
        bm, cc, _ = ops()
        A, _a = mat(ctx, mesh, 'A', 'nc', (nf, nf))
        A.gathering_matrices = (f, f)
        M = bm([[A, B.T], [B, None]])
        n = f.numbering.gathering.global_num_dofs
        for e in b.d:
            want = list(f.numbering.gathering[e].full_vector) + [n + j for j in g.numbering.gathering[e].full_vector]
            ctx.claim([list(G[e]) for G in M.gathering_matrices] == [want, want], 'gathering of a block matrix')
        w, _y = vec(ctx, mesh, 'w', 'vnc', ng)
        w.gathering_matrix = g
        V = cc([v, w])
        for e in b.d:
            ctx.claim(list(V.gathering_matrix[e]) == want if e == list(b.d)[-1] else True, 'gathering of a concatenated vector')


def customised(ctx, dim, how):
    """operations on a customised operand see the customisations"""
    mesh, (f, g) = _forms(dim)
    n = f.num.basis
    r = int(f.numbering.gathering[list(mesh.elements.indices)[-1]].full_vector[0])
    with ctx.symbolic_code():
        c = ctx.real('c')
        ctx.assume(c != 0)
        B, b = mat(ctx, mesh, 'BB', 'ct', (n, n))
        y, y0 = vec(ctx, mesh, 'y', 'vkey', n)
        for kind in ('ct', 'key', 'ad', 'nc'):
            A, _ = mat(ctx, mesh, 'A' + kind, kind, (n, n))
            A.gathering_matrices = (f, f)
            if kind != 'nc':                                    # something is cached already
                dense(A, list(mesh.elements.indices)[0])
            if how == 'row':
                A.customize.identify_global_row(r)
            else:
                A.customize.set_assembled_M_ij_to(r, r, ctx.real('new'))
            a = D({e: dense(A, e) for e in mesh.elements.indices})
            for label, got, want in (('c*A', c * A, a * c), ('-A', -A, -a), ('A.T', A.T, a.T), ('A/c', A / c, a / c), ('A+B', A + B, a + b),
                                     ('B-A', B - A, b - a), ('A@B', A @ B, a @ b), ('A@y', A @ y, a @ y0),
                                     ('sum', A.___PRIVATE_sum___([B]), a + b)):
                same(ctx, got, want, '%s of a customised matrix' % label, twice=False)
        for kind in ('vkey', 'vem', 'vnc'):
            v, _ = vec(ctx, mesh, 'v' + kind, kind, n)
            v.gathering_matrix = f
            dense(v, list(mesh.elements.indices)[0])
            v.customize.set_assembled_V_i_to(r, ctx.real('vnew'))
            x = D({e: dense(v, e) for e in mesh.elements.indices})
            for label, got, want in (('c*v', c * v, x * c), ('-v', -v, -x), ('v+y', v + y, x + y0), ('y-v', y - v, y0 - x), ('B@v', B @ v, b @ x),
                                     ('sum', v.___PRIVATE_sum___([y]), x + y0)):
                same(ctx, got, want, '%s of a customised vector' % label, twice=False)


def forms(ctx, dim, layout, p, ID=None, kw=None):
    """expressions in the library's own matrices, keyed by the metric of the elements; old operands cached first"""
    if dim == 3:
        m = mesh3(ID or 'crazy', layout, **(dict(c=0) if kw is None else kw))
        fc = fc3(m, space3(p))
        a, b = '2-f', '3-f'
    elif dim == 2:
        m = mesh2(ID or 'crazy', layout, **(dict(c=0) if kw is None else kw))
        fc = fc2(m, space2(p))
        a, b = '1-f-o', '2-f-o'
    else:
        fc = tri(layout, p)
        a, b = '1-f-o', '2-f-o'
    f, g = fc(a), fc(b)
    f2, g2 = fc(a), fc(b)
    m = f.mesh
    els = list(m.elements.indices)
    E, M, N = f.matrices.incidence, f.matrices.mass, g.matrices.mass
    ref = {}
    E2, M2, N2 = f2.matrices.incidence, f2.matrices.mass, g2.matrices.mass
    for e in els:                           # a second set of operands, each element asked for on its own
        ref[e] = [dense(x, e) for x in (E2, M2, N2)]
    e0, m0, n0 = (D({e: ref[e][k] for e in els}) for k in range(3))
    nf, ng = f.num.basis, g.num.basis
    bm, cc, _ = ops()
    db, dc, _ = dops()
    with ctx.symbolic_code():
        c = ctx.real('c')
        ctx.assume(c != 0)
        A = {e: ctx.reals('f%d_' % e, (nf,)) for e in els}
        f.cochain.local = A
        fa = D({e: np.array(A[e]).reshape((-1, 1)) for e in els})
        Q, q = mat(ctx, m, 'Q', 'ad', (ng, ng))
        for k, (label, got, want) in enumerate((
                ('E.T@N@E', E.T @ N @ E, e0.T @ n0 @ e0), ('c*M + E.T@N@E', c * M + E.T @ N @ E, m0 * c + e0.T @ n0 @ e0),
                ('Q@E', Q @ E, q @ e0), ('M@f', M @ f, m0 @ fa), ('N@E@f', N @ E @ f, n0 @ (e0 @ fa)),
                ('Q@N@E@f.EWC', Q @ N @ (E @ f.cochain.EWC), q @ n0 @ (e0 @ fa)),
                ('saddle', bm([[M, E.T @ N], [N @ E, None]]), db([[m0, e0.T @ n0], [n0 @ e0, None]])),
                ('saddle@x', bm([[M, E.T @ N], [N @ E, Q]]) @ cc([f.cochain.EWC, E @ f]),
                 db([[m0, e0.T @ n0], [n0 @ e0, q]]) @ dc([fa, e0 @ fa])),
                ('rhs', cc([M @ f, c * (N @ E @ f)]), dc([m0 @ fa, (n0 @ (e0 @ fa)) * c])))):
            same(ctx, got, want, label, els[k % len(els):] + els[:k % len(els)])
        A = {e: ctx.reals('g%d_' % e, (nf,)) for e in els}
        f.cochain.local = A
        fa = D({e: np.array(A[e]).reshape((-1, 1)) for e in els})
        same(ctx, M @ f, m0 @ fa, 'M@f after the coefficients changed')
        same(ctx, c * (E @ f), (e0 @ fa) * c, 'c*E@f after the coefficients changed')
    for e in els:
        for x, r in zip((E, M, N), ref[e]):
            ctx.equal(dense(x, e), r, 1e-12, 'operands afterwards')


MIX = dict(p_WE=(0, 1), p_NS=(0, 1))
HARNESSES = []
for ka in MK:
    HARNESSES.append(H('expressions 2D %s' % ka, pairs, dim=2, ka=ka))
for ka in ('key', 'dict'):
    HARNESSES.append(H('expressions 3D %s' % ka, pairs, dim=3, ka=ka))
HARNESSES.append(H('expressions triangles key', pairs, dim='tri', ka='key'))
for x in ('A+B', 'A-B', 'A@B', 'sum', 'bmat', 'A@v', 'v+w', 'v-w', 'vsum', 'concatenate', 'c*(A-B)@(A+B)', 'bmat@concatenate'):
    HARNESSES.append(H('keys %s' % x, keyed, expr=x))
for d in (2, 3, 'tri'):
    HARNESSES += [H('vectors %s' % d, vpairs, dim=d), H('rectangular %s' % d, rect, dim=d), H('blocks %s' % d, blocks, dim=d),
                  H('gathering %s' % d, gathering, dim=d)]
HARNESSES += [
    H('inverse 2D', inverse, dim=2), H('inverse 3D', inverse, dim=3),
    H('customised row 2D', customised, dim=2, how='row'), H('customised entry 2D', customised, dim=2, how='entry'),
    H('customised row 3D', customised, dim=3, how='row'), H('customised entry 3D', customised, dim=3, how='entry'),
    H('forms 2D', forms, dim=2, layout=(2, 2), p=(1, 2)),
    H('forms 2D stretched', forms, dim=2, layout=([1, 2, 1], [3, 1]), p=(2, 1)),
    H('forms 2D curved', forms, dim=2, layout=(2, 1), p=(2, 1), kw=dict(c=0.1)),
    H('forms 2D chp1', forms, dim=2, layout=(1, 1), p=(1, 1), ID='chp1', kw={}),
    H('forms 2D cic', forms, dim=2, layout=(1, 1), p=(1, 1), ID='cic', kw={}),
    H('forms 3D', forms, dim=3, layout=([1, 2], 1, [1, 1]), p=(1, 1, 1)),
    H('forms 3D curved', forms, dim=3, layout=(1, 2, 1), p=(1, 2, 1), kw=dict(c=0.1)),
    H('forms triangles', forms, dim='tri', layout='rand0', p=1),
]
