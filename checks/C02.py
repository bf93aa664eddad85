"""C02: reduction commutes with differentiation."""
import numpy as np
from engine.harness import H
from checks.common import *

BOUNDS = ('every polynomial field of total degree <= 3 (3D: <= 2 on curved meshes) with coefficients in [-1,1] and '
          'an affine time factor, at two times; meshes: affine, stretched (unequal spacing), sinusoidally curved and '
          'multi-region ones with up to 6 elements; degrees 1..3 mixed per direction; all node families; default and '
          'raised quadrature degree (re-discretised with another degree afterwards).')
ASSUMPTIONS = ['fields outside the polynomial family are covered only by linearity/density, not by the queries']


def _times(ctx, run):
    for t in (0., 0.75):
        run(t)


def c3(ctx, ID, layout, p, kw, deg=2, qd=None, tol=1e-8, kind='Lobatto', forms=(0, 1, 2), hybrid=False, maxe=99,
       again=None):
    mesh = mesh3(ID, layout, **kw)
    fc = fc3(mesh, space3(p, kind))
    q = {} if qd is None else dict(quad_degree=qd)
    if 0 in forms:
        s = poly(ctx, 's', deg, 3)
        s.tcoef = 1
        f, g = fc('0-f', hybrid=hybrid, name='f'), fc('1-f', hybrid=hybrid, name='g')
        f.CF = fc('scalar', s.func())
        g.CF = fc('vector', tuple(s.d(k).func() for k in range(3)))
        _do(ctx, f, g, mesh, {}, q, tol, 'grad', again)
    if 1 in forms:
        u = [poly(ctx, n, deg, 3) for n in 'uvw']
        for i in u:
            i.tcoef = 1
        curl = (u[2].d(1) - u[1].d(2), u[0].d(2) - u[2].d(0), u[1].d(0) - u[0].d(1))
        for c in curl:
            c.tcoef = 1
        f, g = fc('1-f', hybrid=hybrid, name='f'), fc('2-f', hybrid=hybrid, name='g')
        f.CF = fc('vector', tuple(i.func() for i in u))
        g.CF = fc('vector', tuple(i.func() for i in curl))
        _do(ctx, f, g, mesh, q, q, tol, 'curl', again)
    if 2 in forms:
        u = [poly(ctx, n, deg, 3) for n in 'uvw']
        div = u[0].d(0) + u[1].d(1) + u[2].d(2)
        for i in u:
            i.tcoef = 1
        div.tcoef = 1
        f, g = fc('2-f', hybrid=hybrid, name='f'), fc('3-f', hybrid=hybrid, name='g')
        f.CF = fc('vector', tuple(i.func() for i in u))
        g.CF = fc('scalar', div.func())
        _do(ctx, f, g, mesh, q, q, tol, 'div', again)


def _do(ctx, f, g, mesh, qf, qg, tol, what, again=None):
    for n, t in enumerate((0., 0.75)):
        if again and n:
            qf = qf and dict(quad_degree=again)
            qg = qg and dict(quad_degree=again)
        f.CF.current_time = t
        g.CF.current_time = t
        with ctx.symbolic_code():
            f.discretize(**qf)
            g.discretize(**qg)
            df = f.coboundary()
        for i in mesh.elements:
            ctx.equal(df.cochain.local[i], g.cochain.local[i], tol, 'R(%s f) = d R(f)' % what)
    i = list(mesh.elements.indices)[0]
    ctx.distinct(g.cochain.local[i], 0 * np.arange(g.num.basis), '%s reduces to nonzero cochains' % what)


def c2(ctx, ID, layout, p, kw, deg=3, qd=None, tol=1e-8, kind='Lobatto', hybrid=False, o='io', again=None):
    mesh = mesh2(ID, layout, **kw)
    fc = fc2(mesh, space2(p, kind))
    q = {} if qd is None else dict(quad_degree=qd)
    for k in o:
        _o2(ctx, k, lambda n: fc(n, name=n) if n[0] == '2' else fc(n, hybrid=hybrid, name=n), fc, mesh, deg, q, tol, again)


def _o2(ctx, o, form, fc, mesh, deg, q, tol, again=None, scalar='scalar', vector='vector'):
    s = poly(ctx, 's', deg, 2)
    s.tcoef = 1
    G = (s.d(0), s.d(1)) if o == 'i' else (s.d(1), -s.d(0))
    for g_ in G:
        g_.tcoef = 1
    f, g = form('0-f-' + o), form('1-f-' + o)
    f.CF = fc(scalar, s.func())
    g.CF = fc(vector, tuple(i.func() for i in G))
    _do(ctx, f, g, mesh, {}, q, tol, 'grad' if o == 'i' else 'curl', again)
    u = [poly(ctx, n, deg, 2) for n in 'uv']
    D = (u[1].d(0) - u[0].d(1)) if o == 'i' else (u[0].d(0) + u[1].d(1))
    u[0].tcoef = u[1].tcoef = D.tcoef = 1
    f, g = form('1-f-' + o), form('2-f-' + o)
    f.CF = fc(vector, tuple(i.func() for i in u))
    g.CF = fc(scalar, D.func())
    _do(ctx, f, g, mesh, q, q, tol, 'rot' if o == 'i' else 'div', again)


def ct(ctx, p, o, deg=2, mesh='square', qd=None, tol=1e-8, **kw):
    fc = tri(mesh, p, **kw)
    q = {} if qd is None else dict(quad_degree=qd)
    for k in o:
        _o2(ctx, k, lambda n: fc(n, name=n), fc, fc.mesh, deg, q, tol)


def redo(ctx, mk, kinds, lo, hi, dim):
    """a form discretised again (another quadrature degree, another time, another field) is as one that never was discretised before"""
    with ctx.symbolic_code():
        fc = mk()
        for k in kinds:
            sc = k[0] in '0' or k[:3] in ('3-f',) or (dim == 2 and k[0] in '02')
            P = [[poly(ctx, '%s%s%d' % (n, k.replace('-', ''), c), 2, dim) for c in range(1 if sc else dim)] for n in 'FG']
            for q in P[0] + P[1]:
                q.tcoef = 1
            cfs = [fc('scalar', q[0].func()) if sc else fc('vector', tuple(c.func() for c in q)) for q in P]

            def go(f, n, t, q):
                f.CF = cfs[n]
                f.CF.current_time = t
                f.discretize(**({} if k[0] == '0' or q is None else dict(quad_degree=q)))
                return {e: np.array(v) for e, v in f.cochain.local.items()}
            f = fc(k)
            for h in ((0, 0., lo), (0, 0., hi), (1, 0., hi), (1, .5, lo), (0, .5, None), (1, .5, hi), (1, 0., None), (0, 0., lo)):
                got, want = go(f, *h), go(fc(k), *h)
                ctx.claim(set(got) == set(want), 'all elements')
                for e in list(want)[:6]:
                    ctx.equal(got[e], want[e], 1e-11, '%s: discretised again' % k)


def retri(ctx, p, **kw):
    fc = tri('square', p)
    redo(ctx, lambda: fc, dim=2, **kw)


HARNESSES = [
    H('again 3d', redo, mk=lambda: fc3(mesh3('crazy', (1, 1, 2), c=0.15), space3((1, 2, 1))), kinds=('0-f', '1-f', '2-f', '3-f'), lo=(0, 0, 1), hi=(4, 3, 5), dim=3),
    H('again 3d flat', redo, mk=lambda: fc3(mesh3('crazy', (2, 1, 1), c=0.), space3((1, 1, 1))), kinds=('1-f', '2-f', '3-f'), lo=(0, 0, 0), hi=(2, 3, 2), dim=3),
    H('again 2d', redo, mk=lambda: fc2(mesh2('crazy', (2, 1), c=0.15), space2((1, 2))), kinds=('0-f-i', '0-f-o', '1-f-i', '1-f-o', '2-f-i', '2-f-o'), lo=(0, 0), hi=(4, 3), dim=2),
    H('again tri', retri, p=2, kinds=('0-f-i', '1-f-i', '1-f-o', '2-f-i', '2-f-o'), lo=(0, 0), hi=(4, 4)),
    H('3d-aff', c3, ID='crazy', layout=(1, 2, 1), p=(1, 2, 3), kw=dict(c=0.), deg=3),
    H('3d-stretch', c3, ID='crazy', layout=([1, 3], [2, 1], [1, 2]), p=(2, 1, 1),
      kw=dict(c=0., bounds=([0, 1], [0, 2], [-1, 2])), deg=2, again=(3, 3, 3)),
    H('3d-curved', c3, ID='crazy', layout=(1, 1, 2), p=(1, 2, 1), kw=dict(c=0.1), deg=1, qd=(13, 13, 13), tol=1e-5, kind='free'),
    H('3d-bridge', c3, ID='bridge_arch_cracked', layout=(1, 1, 1), p=(2, 1, 1), kw={}, deg=1, qd=(7, 7, 7), tol=1e-6),
    H('3d-psc', c3, ID='psc', layout=(1, 1, 1), p=(1, 1, 1), kw={}, deg=1, qd=(7, 7, 7), tol=1e-6, forms=(1,)),
    H('2d-aff', c2, ID='crazy', layout=([1, 2], [3, 1]), p=(2, 3), kw=dict(c=0.), deg=3, again=(5, 5)),
    H('2d-curved', c2, ID='crazy', layout=([1, 2], [2, 1]), p=(3, 2), kw=dict(c=0.1), deg=2, qd=(13, 13), tol=1e-6),
    H('2d-chp1', c2, ID='chp1', layout=(1, 2), p=(2, 1), kw={}, deg=2, qd=(9, 9), tol=1e-6),
    H('2d-chp2', c2, ID='chp2', layout=(1, 1), p=(1, 1), kw={}, deg=2, qd=(9, 9), tol=1e-6),
    H('2d-cic', c2, ID='cic', layout=(1, 1), p=(1, 2), kw={}, deg=2, qd=(9, 9), tol=1e-6),
    H('2d-bcr', c2, ID='bcr', layout=(1, 1), p=(2, 2), kw={}, deg=2, qd=(24, 24), tol=1e-6),
    H('2d-quad', c2, ID='quadrangle', layout=(2, 1), p=(2, 2), kw={}, deg=2, qd=(5, 5), tol=1e-6),
    H('tri', ct, p=2, o='io', K=2, qd=(5, 5)),
    H('tri-rand', ct, p=1, o='io', mesh='rand0', qd=(4, 4)),
]
