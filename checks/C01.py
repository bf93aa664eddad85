"""C01: the discrete exterior derivative is nilpotent (d of d is zero) for every cochain."""
import numpy as np
from engine.harness import H
from checks.common import *

BOUNDS = ('3D: layouts up to 2x2x1, degrees 1..3 mixed per direction, hybrid and conforming; 2D inner/outer up to degree 4; '
          'triangular inner/outer degree 1..3; every cochain value in [-1,1] (linear, so all reals).')
ASSUMPTIONS = ['cochain values are arbitrary reals; the claims are homogeneous, so the box [-1,1] is no restriction']


def dd3(ctx, ID, layout, p, hybrid, kw):
    mesh = mesh3(ID, layout, **kw)
    fc = fc3(mesh, space3(p))
    for k in (0, 1):
        f = fc('%d-f' % k, hybrid=hybrid, name='f%d' % k)
        set_cochain(ctx, f, 'c%d_' % k)
        with ctx.symbolic_code():
            d = f.coboundary()
            dd = d.coboundary()
        for i in mesh.elements:
            ctx.distinct(d.cochain.local[i], 0 * np.arange(len(d.cochain.local[i])), 'd f is not identically 0')
            ctx.equal(dd.cochain.local[i], 0, 1e-9, 'd(d f)=0 for %d-forms' % k)
        # as operators applied through the element-wise matrices
        E1, E2 = d.coboundary.incidence_matrix, f.coboundary.incidence_matrix
        with ctx.symbolic_code():
            EE = E1 @ E2
            for i in mesh.elements:
                ctx.equal(EE[i] @ f.cochain.local[i], 0, 1e-9, 'E E = 0 as operators, %d-forms' % k)
    # constants are in the kernel of the first d
    c = ctx.real('const')
    f = fc('0-f', hybrid=hybrid, name='c')
    f.cochain.local = {i: np.array([c] * f.num.basis) for i in mesh.elements}
    with ctx.symbolic_code():
        d = f.coboundary()
    for i in mesh.elements:
        ctx.equal(d.cochain.local[i], 0, 1e-9, 'd of a constant is 0')


def dd2(ctx, ID, layout, p, hybrid, kw, o):
    mesh = mesh2(ID, layout, **kw)
    fc = fc2(mesh, space2(p))
    f = fc('0-f-' + o, hybrid=hybrid, name='f')
    set_cochain(ctx, f, 'c')
    with ctx.symbolic_code():
        d = f.coboundary()
        dd = d.coboundary()
    for i in mesh.elements:
        ctx.distinct(d.cochain.local[i], 0 * np.arange(len(d.cochain.local[i])), 'd f is not identically 0')
        ctx.equal(dd.cochain.local[i], 0, 1e-9, 'd(d f)=0')


def ddt(ctx, p, o, mesh='square', **kw):
    fc = tri(mesh, p, **kw)
    f = fc('0-f-' + o, name='f')
    set_cochain(ctx, f, 'c')
    with ctx.symbolic_code():
        d = f.coboundary()
        dd = d.coboundary()
    for i in fc.mesh.elements.indices:
        ctx.distinct(d.cochain.local[i], 0 * np.arange(len(d.cochain.local[i])), 'd f is not identically 0')
        ctx.equal(dd.cochain.local[i], 0, 1e-9, 'd(d f)=0')


HARNESSES = [
    H('3d-p123', dd3, ID='crazy', layout=(2, 1, 1), p=(1, 2, 3), hybrid=False, kw=dict(c=0.1)),
    H('3d-p222h', dd3, ID='crazy_periodic', layout=(1, 2, 1), p=(2, 2, 2), hybrid=True, kw=dict(c=0.1)),
    H('3d-p311', dd3, ID='bridge_arch_cracked', layout=(1, 1, 1), p=(3, 1, 1), hybrid=False, kw={}),
    H('2d-i', dd2, ID='crazy', layout=(2, 2), p=(2, 4), hybrid=False, kw=dict(c=0.1), o='i'),
    H('2d-o', dd2, ID='crazy', layout=(2, 2), p=(4, 2), hybrid=True, kw=dict(c=0.1), o='o'),
    H('tri-i', ddt, p=2, o='i', K=2),
    H('tri-o', ddt, p=3, o='o', K=2),
]
