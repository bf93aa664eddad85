"""C05: quadrature rules are exact up to their degree."""
import numpy as np
from engine.harness import H
from checks.common import *

BOUNDS = ('1D: Gauss degree 0..15, Lobatto 1..15, Chebyshev (weighted) 0..8, every polynomial up to the exactness '
          'degree with coefficients in [-1,1]; 2D/3D: mixed degrees and mixed categories, every polynomial of the '
          'per-direction exactness degrees.')
ASSUMPTIONS = ['degrees above the listed ones are not explored']


def exact(kind, p):
    return {'Gauss': 2 * p + 1, 'Lobatto': 2 * p - 1, 'extended_Gauss': 2 * p - 3, 'Chebyshev': 2 * p + 1}[kind]


def mono(k):
    return 0. if k % 2 else 2. / (k + 1)


def mono_cheb(k):
    """integral of x^k / sqrt(1-x^2) over [-1,1]."""
    if k % 2:
        return 0.
    v = np.pi
    for j in range(1, k, 2):
        v *= j / (j + 1.)
    return v


def one(ctx, kind, ps):
    from components.quadrature import Quadrature
    for p in ps:
        with ctx.symbolic_code():
            x, w = Quadrature(p, category=kind).quad
        x, w = np.asarray(x, float), np.asarray(w, float)
        ctx.claim(len(x) == p + 1 and len(w) == p + 1, '%s has p+1 nodes' % kind)
        ctx.claim(np.all(np.diff(x) > 0), '%s nodes increase' % kind)
        ctx.claim(np.all(np.abs(x) <= 1), '%s nodes in [-1,1]' % kind)
        ctx.equal(x, -x[::-1], 1e-10, '%s nodes symmetric' % kind)
        ctx.claim(np.all(w > 0) if kind != 'extended_Gauss' else np.all(w >= 0), '%s weights positive' % kind)
        if kind == 'Lobatto':
            ctx.equal([x[0], x[-1]], [-1, 1], 1e-12, 'Lobatto includes the ends')
        c = [ctx.real('c%d_%d' % (p, k)) for k in range(exact(kind, p) + 1)]
        I, Q = 0, 0
        mm = mono_cheb if kind == 'Chebyshev' else mono
        for k, ck in enumerate(c):
            I = I + ck * mm(k)
            Q = Q + ck * np.dot(x ** k, w)
        ctx.equal(Q, I, 1e-9, '%s quadrature is exact to its degree' % kind)


def multi(ctx, p, cat):
    from components.quadrature import Quadrature
    d = len(p)
    kinds = [cat] * d if isinstance(cat, str) else cat
    with ctx.symbolic_code():
        q = Quadrature(list(p), category=cat)
        x, w = q.quad
        nd = q.quad_ndim
        rv = q.quad_ndim_ravel
    ex = [exact(k, i) for k, i in zip(kinds, p)]
    C = {}
    import itertools
    for e in itertools.product(*[range(k + 1) for k in ex]):
        C[e] = ctx.real('c' + '_'.join(map(str, e)))
    I = 0
    for e, c in C.items():
        m = 1.
        for k in e:
            m *= mono(k)
        I = I + c * m

    def apply(pts, wts):
        Q = 0
        for e, c in C.items():
            v = wts
            for X, k in zip(pts, e):
                v = v * X ** k
            Q = Q + c * float(np.sum(v))
        return Q
    ctx.claim(len(nd) == d + 1 and len(rv) == d + 1, 'arrays per direction')
    ctx.equal(apply(nd[:-1], nd[-1]), I, 1e-8, 'tensor-product quadrature is exact')
    ctx.equal(apply(rv[:-1], rv[-1]), I, 1e-8, 'ravelled quadrature is exact')
    mg = np.meshgrid(*x, indexing='ij')
    W = w[0]
    for k in range(1, d):
        W = np.multiply.outer(W, w[k])
    ctx.equal(apply(mg, W), I, 1e-8, 'per-direction rules are exact')
    for a, b in zip(nd, rv):
        ctx.equal(np.asarray(a).ravel('F'), b, 1e-14, 'ravel order')


HARNESSES = [
    H('gauss', one, kind='Gauss', ps=list(range(0, 12))),
    H('lobatto', one, kind='Lobatto', ps=list(range(1, 13))),
    H('chebyshev', one, kind='Chebyshev', ps=list(range(0, 9))),
    H('ext', one, kind='extended_Gauss', ps=list(range(2, 9))),
    H('2d-gauss', multi, p=(2, 4), cat='Gauss'),
    H('2d-mixed', multi, p=(3, 2), cat=('Lobatto', 'Gauss')),
    H('3d-lobatto', multi, p=(2, 3, 1), cat='Lobatto'),
    H('3d-gauss', multi, p=(1, 0, 2), cat='Gauss'),
    H('3d-mixed equal degrees', multi, p=(2, 2, 2), cat=('Lobatto', 'Gauss', 'Lobatto')),
    H('2d-mixed equal degrees', multi, p=(3, 3), cat=('Gauss', 'Lobatto')),
    H('3d-mixed', multi, p=(1, 2, 3), cat=('Gauss', 'Lobatto', 'Gauss')),
    H('gauss-t', one, tier='thorough', kind='Gauss', ps=list(range(12, 30))),
    H('lobatto-t', one, tier='thorough', kind='Lobatto', ps=list(range(13, 30))),
]
