"""Shared builders for the harnesses (all through /repo's public interfaces)."""
import itertools
import numpy as np


def mesh3(ID='crazy', layout=(1, 1, 1), EDM=None, **kw):
    from objects.CSCG._3d.master import MeshGenerator
    return MeshGenerator(ID, **kw)(_lay(layout), EDM=EDM)


def mesh2(ID='crazy', layout=(1, 1), EDM=None, **kw):
    from objects.CSCG._2d.master import MeshGenerator
    return MeshGenerator(ID, **kw)(_lay(layout), EDM=EDM)


def _lay(layout):
    if isinstance(layout, tuple):
        return list(layout)
    return layout


FREE = {1: [-1., 1.], 2: [-1., 0.2, 1.], 3: [-1., -0.3, 0.6, 1.], 4: [-1., -0.7, -0.1, 0.6, 1.]}


def _spin(p, kind):
    """space inputs: degree p per direction; node family kind ('free': unequally spaced own nodes)."""
    kinds = [kind] * len(p) if isinstance(kind, str) else kind
    return [(FREE[q],) if k == 'free' else (k, q) for q, k in zip(p, kinds)]


def space3(p=(1, 1, 1), kind='Lobatto'):
    from objects.CSCG._3d.master import SpaceInvoker
    return SpaceInvoker('polynomials')(_spin(p, kind))


def space2(p=(1, 1), kind='Lobatto'):
    from objects.CSCG._2d.master import SpaceInvoker
    return SpaceInvoker('polynomials')(_spin(p, kind))


def fc3(mesh, space):
    from objects.CSCG._3d.master import FormCaller
    return FormCaller(mesh, space)


def fc2(mesh, space):
    from objects.CSCG._2d.master import FormCaller
    return FormCaller(mesh, space)


def tri(mesh='square', p=1, **kw):
    from objects.miUsGrid.triangular.master import Call
    return Call(mesh, p, **kw)


# --------------------------------------------------------------------------------------------------
def exps(deg, dim, total=True):
    return [e for e in itertools.product(range(deg + 1), repeat=dim) if not total or sum(e) <= deg]


class Poly(object):
    """Polynomial in dim coordinates with (symbolic) coefficients; callable (t, *x).  `time` adds a
    factor (1 + time*t)."""

    def __init__(self, terms, dim, tcoef=0):
        self.terms = terms      # {exponents: coefficient}
        self.dim = dim
        self.tcoef = tcoef

    def __call__(self, t, *x):
        out = 0
        for e, c in self.terms.items():
            m = c
            for xi, k in zip(x, e):
                if k:
                    m = m * xi ** k
            out = out + m
        if np.ndim(out) == 0 and np.ndim(x[0]):
            out = out + 0 * x[0]
        if self.tcoef:
            out = out * (1 + self.tcoef * t)
        return out

    def d(self, k):
        T = {}
        for e, c in self.terms.items():
            if e[k]:
                f = list(e)
                f[k] -= 1
                f = tuple(f)
                T[f] = T.get(f, 0) + c * e[k]
        return Poly(T, self.dim, self.tcoef)

    def __add__(self, o):
        T = dict(self.terms)
        for e, c in o.terms.items():
            T[e] = T.get(e, 0) + c
        return Poly(T, self.dim, self.tcoef)

    def __neg__(self):
        return Poly({e: -c for e, c in self.terms.items()}, self.dim, self.tcoef)

    def __sub__(self, o):
        return self + (-o)

    def func(self):
        """a plain function (the field constructors look at the argument count)."""
        if self.dim == 3:
            return lambda t, x, y, z: self(t, x, y, z)
        return lambda t, x, y: self(t, x, y)


def poly(ctx, name, deg, dim, total=True):
    return Poly({e: ctx.real('%s_%s' % (name, ''.join(map(str, e)))) for e in exps(deg, dim, total)}, dim)


def set_cochain(ctx, f, name):
    """arbitrary local cochain of a form."""
    f.cochain.local = {i: ctx.reals('%s%d' % (name, i), f.num.basis) for i in f.mesh.elements}
    return f.cochain.local


def global_cochain(ctx, f, name):
    """arbitrary conforming cochain: one value per global dof, distributed by the gathering matrix."""
    G = f.numbering.gathering
    n = 0
    for i in G:
        n = max(n, int(np.max(G[i].full_vector)) + 1)
    v = ctx.reals(name, n)
    f.cochain.local = {i: v[G[i].full_vector] for i in G}
    return v
