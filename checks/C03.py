"""C03: reduction inverts reconstruction; all reconstruction paths agree; polynomial reproduction."""
import numpy as np
from engine.harness import H
from checks.common import *
from checks import oracle as O

BOUNDS = ('every local cochain with entries in [-1,1] on meshes of up to 8 elements (affine, stretched, curved, '
          'multi-region), degrees 1..3 mixed per direction, node families Lobatto, extended Gauss and unequally spaced '
          'own nodes, all standard-form kinds in 3D, 2D and on triangles; fixed evaluation grids.')
ASSUMPTIONS = ['the Jacobian used in the functionals is the one the code reports (decided independently by C06)']

X3 = (np.array([-1, -.7, .1, .6]), np.array([-.9, .2, 1.]), np.array([-.4, .5]))
TOL = 1e-8


def _eval(f, i, dim, **kw):
    def fun(*ax):
        return f.reconstruct(*ax, ravel=True, element_range=i)[1][i]
    return fun


def c3(ctx, ID, layout, p, kw, kind='Lobatto', forms='0123', hybrid=False, only=None, tol=TOL):
    mesh = mesh3(ID, layout, **kw)
    space = space3(p, kind)
    fc = fc3(mesh, space)
    for k in forms:
        f = fc(k + '-f', hybrid=hybrid, name='f' + k)
        c = set_cochain(ctx, f, 'c' + k)
        els = list(mesh.elements.indices)
        for i in els if only is None else els[:only]:
            with ctx.symbolic_code():
                fun = _eval(f, i, 3)
                d = O.dofs(k, [np.array(n) for n in space.nodes], mesh.elements[i], fun)
            ctx.equal(d, c[i], tol, 'dofs of the reconstruction of a %s-form' % k)


def v3(ctx, ID, layout, p, kw, kind='Lobatto', forms='0123', tol=TOL):
    """the different routes to reconstructed values agree."""
    mesh = mesh3(ID, layout, **kw)
    fc = fc3(mesh, space3(p, kind))
    R = mesh.domain.regions.names
    for k in forms:
        f = fc(k + '-f', name='f' + k)
        set_cochain(ctx, f, 'c' + k)
        els = list(mesh.elements.indices)
        with ctx.symbolic_code():
            base, xyz = {}, {}
            for i in els:
                a, b = f.reconstruct(*X3, ravel=True, element_range=i)
                base[i], xyz[i] = b[i], a[i]
            full = f.reconstruct(*X3)
            rav = f.reconstruct(*X3, ravel=True)
            sub = f.reconstruct(*X3, ravel=True, element_range=els[-2:])
            reg = f.reconstruct(*X3, ravel=True, regions=R[0])
            allr = f.reconstruct(*X3, ravel=True, regions='all')
            RM = f.do.make_reconstruction_matrix_on_grid(*X3)
        sh = [len(a) for a in X3]
        ctx.claim(sorted(full[1]) == sorted(rav[1]) == sorted(allr[1]) == els, 'all elements are reconstructed')
        ctx.claim(sorted(reg[1]) == [i for i in els if mesh.do.find.region_name_of_element(i) == R[0]],
                  'regions= selects the elements of the region')
        ctx.claim(sorted(sub[1]) == sorted(els[-2:]), 'element_range selects elements')
        for i in els:
            m = mesh.elements[i].coordinate_transformation.mapping(*O.grid(*X3))
            for s in range(3):
                ctx.equal(xyz[i][s], m[s], tol, 'coordinates')
                ctx.equal(full[0][i][s], np.asarray(m[s]).reshape(sh, order='F'), tol, 'grid coordinates')
            M = RM[i] if isinstance(RM[i], (list, tuple)) else [RM[i]]
            off = 0
            for s in range(len(base[i])):
                ctx.equal(full[1][i][s], base[i][s].reshape(sh, order='F'), tol, 'grid shaped values %s-form' % k)
                for o, n in ((rav, 'ravel'), (sub, 'element_range'), (reg, 'regions'), (allr, 'all regions')):
                    if i in o[1]:
                        ctx.equal(o[1][i][s], base[i][s], tol, n)
                ctx.equal(np.asarray(M[s]) @ f.cochain.local[i], base[i][s], tol, 'reconstruction matrix %s-form' % k)
            if k in '12':
                ctx.distinct(base[i][0], base[i][1], 'components differ')


def _disc(ctx, f, mesh, fc, grids, dim, tol):
    """region-wise reconstruction on a grid of each region against element-wise reconstruction."""
    rs = {}
    for r in mesh.domain.regions.names:
        rs[r] = grids
    with ctx.symbolic_code():
        df = f.reconstruct.discrete_field(rs)
    V, C = df.values, df.coordinates
    for r in mesh.domain.regions.names:
        Sp = mesh.elements.spacing[r]
        gn = mesh.___PRIVATE_generate_element_global_numbering___(number_what=r)
        for ind in np.ndindex(*[len(a) for a in grids]):
            pos, loc = [], []
            for d in range(dim):
                s = grids[d][ind[d]]
                S = np.asarray(Sp[d], float)
                e = min(int(np.searchsorted(S, s, side='right')) - 1, len(S) - 2)
                pos.append(e)
                loc.append(np.array([2 * (s - S[e]) / (S[e + 1] - S[e]) - 1]))
            i = gn[tuple(pos)]
            a, b = f.reconstruct(*loc, ravel=True, element_range=int(i))
            for c in range(dim):
                ctx.equal(C[r][c][ind], a[i][c][0], tol, 'region-wise coordinates')
            for c in range(len(b[i])):
                ctx.equal(V[r][c][ind], b[i][c][0], tol, 'region-wise values')


def d3(ctx, ID, layouts, p, kws, kind='Lobatto', forms='0123', tol=TOL):
    for n, (layout, kw) in enumerate(zip(layouts, kws)):
        mesh = mesh3(ID, layout, **kw)
        fc = fc3(mesh, space3(p, kind))
        for k in forms:
            f = fc(k + '-f', name='f' + k)
            set_cochain(ctx, f, 'c%s%d' % (k, n))
            _disc(ctx, f, mesh, fc, (np.array([0, .3, .45]), np.array([.2, .4, 1.]), np.array([.7])), 3, tol)


def d2(ctx, ID, layouts, p, kws, kind='Lobatto', forms=('0-f-o', '1-f-i', '1-f-o', '2-f-o'), tol=TOL):
    for n, (layout, kw) in enumerate(zip(layouts, kws)):
        mesh = mesh2(ID, layout, **kw)
        fc = fc2(mesh, space2(p, kind))
        for k in forms:
            f = fc(k, name='f' + k)
            set_cochain(ctx, f, 'c%s%d' % (k, n))
            _disc(ctx, f, mesh, fc, (np.array([0, .3, .45]), np.array([.2, .4, 1.])), 2, tol)


K2 = {'0-f-i': '0', '0-f-o': '0', '1-f-i': '1i', '1-f-o': '1o', '2-f-i': '2', '2-f-o': '2'}


def c2(ctx, ID, layout, p, kw, kind='Lobatto', forms=tuple(K2), vec=True, tol=TOL):
    mesh = mesh2(ID, layout, **kw)
    space = space2(p, kind)
    fc = fc2(mesh, space)
    X2 = X3[:2]
    sh = [len(a) for a in X2]
    els = list(mesh.elements.indices)
    for k in forms:
        f = fc(k, name='f' + k)
        c = set_cochain(ctx, f, 'c' + k)
        for i in els:
            with ctx.symbolic_code():
                d = O.dofs(K2[k], [np.array(n) for n in space.nodes], mesh.elements[i], _eval(f, i, 2))
            ctx.equal(d, c[i], tol, 'dofs of the reconstruction of a %s' % k)
        with ctx.symbolic_code():
            base = {i: f.reconstruct(*X2, ravel=True, element_range=i) for i in els}
            full = f.reconstruct(*X2)
            rav = f.reconstruct(*X2, ravel=True)
            if vec:
                V = f.reconstruct(*X2, ravel=True, vectorized=True, value_only=True)
            try:
                RM = f.do.make_reconstruction_matrix_on_grid(*X2)
            except (NotImplementedError, AttributeError):
                RM = None
        ctx.claim(sorted(full[1]) == sorted(rav[1]) == els, 'all elements are reconstructed')
        for n, i in enumerate(els):
            m = mesh.elements[i].coordinate_transformation.mapping(*O.grid(*X2))
            b = base[i][1][i]
            for s in range(2):
                ctx.equal(base[i][0][i][s], m[s], tol, 'coordinates')
                ctx.equal(rav[0][i][s], m[s], tol, 'coordinates')
                ctx.equal(full[0][i][s], np.asarray(m[s]).reshape(sh, order='F'), tol, 'grid coordinates')
            for s in range(len(b)):
                ctx.equal(full[1][i][s], b[s].reshape(sh, order='F'), tol, 'grid shaped values ' + k)
                ctx.equal(rav[1][i][s], b[s], tol, 'ravel ' + k)
                if vec:
                    ctx.equal(V[s][n], b[s], tol, 'vectorised values ' + k)
                if RM is not None:
                    M = RM[i] if isinstance(RM[i], (list, tuple)) else [RM[i]]
                    ctx.equal(np.asarray(M[s]) @ f.cochain.local[i], b[s], tol, 'reconstruction matrix ' + k)


def ct(ctx, mesh, p, tol=TOL, **kw):
    """triangles: reproduction of the polynomial spaces, routes agree."""
    fc = tri(mesh, p, **kw)
    m = fc.mesh
    X2 = X3[:2]
    sh = [len(a) for a in X2]
    x, y = O.grid(*X2)
    els = list(m.elements.indices)
    for k in K2:
        f = fc(k, name='f' + k)
        deg = {'0': p, '1': p - 1, '2': p - 2}[k[0]]     # the 2-forms carry 1/det J of the collapsed cell
        if k[0] == '1':
            u = [poly(ctx, k + n, deg, 2) for n in 'uv']
            f.CF = fc('vector', [a.func() for a in u])
        else:
            u = [poly(ctx, k, deg, 2)]
            f.CF = fc('scalar', u[0].func())
        f.CF.current_time = 0
        with ctx.symbolic_code():
            f.discretize() if k[0] == '0' else f.discretize(quad_degree=(p + 3, p + 3))
            full = f.reconstruct(*X2)
            rav = f.reconstruct(*X2, ravel=True)
            val = f.reconstruct(*X2, ravel=True, value_only=True)
            RM = f.do.make_reconstruction_matrix_on_grid(*X2)
        for i in els:
            X, Y = m.elements[i].coordinate_transformation.mapping(x, y)
            if deg >= 0:
                for s, a in enumerate(u):
                    ctx.equal(rav[1][i][s], a(0, X, Y), tol, 'polynomial field reproduced by %s' % k)
        c = set_cochain(ctx, f, 'c' + k)
        if k[0] != '1':
            n = np.array(f.space.nodes, float)
            for i in els:
                if k[0] == '2':
                    with ctx.symbolic_code():
                        d = O.dofs('2', [n, n], m.elements[i], _eval(f, i, 2))
                    want = c[i]
                else:
                    ln = getattr(f.space.local_numbering, 'miUsTriangular_S0F_' + ('Inner' if k[-1] == 'i' else 'Outer'))[0]
                    d = f.reconstruct(n, n, ravel=True, element_range=i)[1][i][0]
                    want = c[i][np.asarray(ln).ravel('F')]
                ctx.equal(d, want, tol, 'dofs of the reconstruction of a %s' % k)
        with ctx.symbolic_code():
            full = f.reconstruct(*X2)
            rav = f.reconstruct(*X2, ravel=True)
            val = f.reconstruct(*X2, ravel=True, value_only=True)
            one = f.reconstruct(*X2, ravel=True, element_range=els[-1])
        ctx.claim(sorted(full[1]) == sorted(rav[1]) == sorted(val) == els and sorted(one[1]) == els[-1:], 'elements')
        for i in els:
            X, Y = m.elements[i].coordinate_transformation.mapping(x, y)
            ctx.equal(rav[0][i], [X, Y], tol, 'coordinates')
            M = RM[i] if isinstance(RM[i], (list, tuple)) else [RM[i]]
            for s in range(len(u)):
                ctx.equal(full[1][i][s], rav[1][i][s].reshape(sh, order='F'), tol, 'grid shaped values ' + k)
                ctx.equal(val[i][s], rav[1][i][s], tol, 'value only ' + k)
                ctx.equal(np.asarray(M[s]) @ f.cochain.local[i], rav[1][i][s], tol, 'reconstruction matrix ' + k)
            if i == els[-1]:
                for s in range(len(u)):
                    ctx.equal(one[1][i][s], rav[1][i][s], tol, 'element_range ' + k)


AFF = dict(c=0.)
STR = ([1, 3], [2, 1], [1, 2])
def b2(ctx, ID, layout, p, kw):
    """a 0-form on a boundary: the values and points of exactly the edges on that boundary"""
    mesh = mesh2(ID, layout, **kw)
    fc = fc2(mesh, space2(p))
    xi, et = np.array([-1, -.2, .5, 1]), np.array([-1, .3, 1])
    at = dict(U=(0, -1.), D=(0, 1.), L=(1, -1.), R=(1, 1.))
    for k in ('0-f-i', '0-f-o'):
        f = fc(k, name='f' + k[-1])
        set_cochain(ctx, f, 'c' + k[-1])
        n = 0
        for b in mesh.boundaries.names:
            with ctx.symbolic_code():
                X, V = f.reconstruct(xi, et, element_range=b)
            edges = {(i, s) for i in V for s in V[i]}
            want = set()
            for i in mesh.elements.indices:
                for s, q in zip('UDLR', mesh.elements[i].position):
                    if q == b:
                        want.add((i, s))
            ctx.claim(edges == want and set(X) == set(V), 'the edges of a boundary')
            for i, s in edges:
                d, z = at[s]
                ax = [xi, et]
                ax[d] = np.array([z])
                x, v = f.reconstruct(*ax, ravel=True, element_range=i)
                for c in range(2):
                    ctx.equal(X[i][s][c], np.asarray(x[i][c]).ravel(), 1e-9, 'points on an edge of a boundary')
                ctx.equal(V[i][s][0], np.asarray(v[i][0]).ravel(), 1e-9, 'values on an edge of a boundary')
                n += 1
        ctx.claim(n >= 4, 'there are boundaries')


HARNESSES = [
    H('boundary-2d', b2, ID='crazy', layout=(2, 2), p=(2, 1), kw=dict(c=.1)),
    H('boundary-2d-chp1', b2, ID='chp1', layout=(1, 2), p=(1, 2), kw={}),
    H('dofs-3d-aff', c3, ID='crazy', layout=(1, 1, 2), p=(3, 2, 1), kw=dict(c=0., bounds=([0, 1], [0, 3], [-1, 1]))),
    H('dofs-3d-curved', c3, ID='crazy', layout=(1, 2, 1), p=(1, 2, 2), kw=dict(c=.15), kind=('free', 'Lobatto', 'extended_Gauss')),
    H('dofs-3d-bridge', c3, ID='bridge_arch_cracked', layout=(1, 1, 1), p=(1, 2, 1), kw={}, hybrid=True),
    H('dofs-3d-psc', c3, ID='psc', layout=(1, 1, 1), p=(1, 1, 2), kw={}, only=3),
    H('routes-3d-stretch', v3, ID='crazy', layout=STR, p=(2, 1, 1), kw=AFF),
    H('routes-3d-curved', v3, ID='crazy', layout=(1, 1, 2), p=(1, 2, 1), kw=dict(c=.1)),
    H('routes-3d-bridge', v3, ID='bridge_arch_cracked', layout=(1, 1, 1), p=(1, 1, 2), kw={}),
    H('regions-3d', d3, ID='crazy', layouts=((2, 2, 1), STR), p=(1, 2, 1), kws=(AFF, dict(c=.1))),
    H('regions-3d-bridge', d3, ID='bridge_arch_cracked', layouts=((2, 1, 1), (1, 2, 1)), p=(1, 1, 1), kws=({}, {})),
    H('2d-stretch', c2, ID='crazy', layout=([1, 2], [3, 1]), p=(2, 3), kw=AFF),
    H('2d-homog', c2, ID='crazy', layout=(2, 2), p=(3, 1), kw=AFF, kind='free'),
    H('2d-curved', c2, ID='crazy', layout=(2, 1), p=(2, 2), kw=dict(c=.15)),
    H('2d-quad', c2, ID='quadrangle', layout=(2, 1), p=(1, 2), kw={}),
    H('2d-chp1', c2, ID='chp1', layout=(1, 1), p=(2, 1), kw={}),
    H('2d-bcr', c2, ID='bcr', layout=(1, 1), p=(2, 2), kw={}),
    H('2d-cic', c2, ID='cic', layout=(1, 1), p=(1, 2), kw={}),
    H('regions-2d', d2, ID='crazy', layouts=((2, 2), ([1, 3], [2, 1])), p=(1, 2), kws=(AFF, dict(c=.1))),
    H('regions-2d-chp1', d2, ID='chp1', layouts=((2, 1), (1, 2)), p=(2, 1), kws=({}, {})),
    H('tri', ct, mesh='square', p=2, K=2),
    H('tri-rand', ct, mesh='rand0', p=1),
    H('tri-3', ct, mesh='square', p=3, K=1, tier='thorough'),
]
