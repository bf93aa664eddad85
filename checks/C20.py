"""C20: error norms, energies and distances are the integrals (maxima) they stand for, over the whole mesh, at the field's time."""
import numpy as np
from engine.harness import H
from engine import mpisim
from checks import common as C_, oracle as O
from checks.common import Poly, poly, mesh2, mesh3, space2, space3, fc2, fc3, tri
from checks.C07 import gauss, rec, jac
from checks.C13 import S_, C

BOUNDS = ('2-D, 3-D and triangular meshes of 1-8 elements (affine: exact; curved: given quadrature degree, 1e-6), degrees <= 3; every local '
          'coefficient of the form, every coefficient of the exact polynomial field and the time symbolic for n = 2 and 4; for n = 1, 3 and '
          'infinity the error is one symbolic multiple of a fixed error; 1-3 simulated processes')
ASSUMPTIONS = ['square roots are real (the radicand is not negative)', 'the values of a form at points are C03, the coordinates C06',
               'several processes are simulated in one Python process (engine/mpisim.py)']

FLAT2 = dict(ID='crazy', layout=(2, 1), c=0., EDM=None)
FLAT3 = dict(ID='crazy', layout=(1, 2, 1), c=0.)


def scalar_(ID, dim):
    return ID[0] in ('0', '3' if dim == 3 else '2')


def setup(dim, mesh, p, kind='Lobatto'):
    mesh = dict(mesh)
    if dim == 'tri':
        return tri(mesh.pop('ID'), p, **mesh)
    ID, lay = mesh.pop('ID'), mesh.pop('layout')
    if dim == 2:
        m = mesh2(ID, lay, **mesh)
        return fc2(m, space2(p, kind))
    m = mesh3(ID, lay, **mesh)
    return fc3(m, space3(p, kind))


def make(fc, ID, dim):
    if dim == 'tri' or scalar_(ID, dim) and ID[0] != '0':
        return fc(ID)
    return fc(ID, hybrid=False)


def ndim(dim):
    return 3 if dim == 3 else 2


def exact(ctx, fc, ID, dim, deg, name='u', tcoef=0):
    """an exact field with symbolic coefficients"""
    d = ndim(dim)
    n = 1 if scalar_(ID, d) else d
    P = [poly(ctx, '%s%d' % (name, k), deg, d) for k in range(n)]
    for q in P:
        q.tcoef = tcoef
    return P, continuous(fc, P)


def continuous(fc, P):
    F = [q.func() if hasattr(q, 'func') else q for q in P]
    return fc('scalar', F[0]) if len(F) == 1 else fc('vector', tuple(F))


def points(m, i, ax):
    g = [x.ravel('F') for x in np.meshgrid(*ax, indexing='ij')]
    return m.elements[i].coordinate_transformation.mapping(*g)


def integral(f, ax, w, values, dim):
    """sum over the elements of the integral of values(element)"""
    tot = 0
    for i in f.mesh.elements.indices:
        tot = tot + np.sum(values(i) * (w * jac(f.mesh, i, ax)))
    return tot


def nodes(dim, q):
    return gauss(*(q,) * ndim(dim))


def field_at(P, t, x):
    return [q(t, *x) for q in P]


def l2(ctx, dim, mesh, p, ID, deg=1, n=2, quad=None, q=None, tol=1e-9, hnorm=False, kind='Lobatto', upon=False, k=None):
    """error.L(n) ** n is the integral of |form - field| ** n; at the time of the field, also after it changed"""
    fc = setup(dim, mesh, p, kind)
    ax, w = nodes(dim, q or (p if dim == 'tri' else max(p)) * n // 2 + 3)
    with ctx.symbolic_code():
        f = make(fc, ID, dim)
        P, cf = exact(ctx, fc, ID, dim, deg, tcoef=0.5)
        for m in f.mesh.elements.indices:
            pass
        loc = {i: ctx.reals('a%d_' % i, f.num.basis) if k is None or i in k else np.linspace(-1, 1, f.num.basis) for i in f.mesh.elements.indices}
        f.cochain.local = loc
        f.CF = cf
        D = derivative(fc, f, ID, P) if hnorm else None
        for t in (0., ctx.real('t', 0, 4)):
            f.CF.current_time = t
            kw = {} if quad is None else dict(quad_degree=(quad,) * ndim(dim))
            v = rec(f, ax)

            def err(i):
                return sum((a - b) ** n for a, b in zip(v[i], field_at(P, t, points(f.mesh, i, ax))))
            want = integral(f, ax, w, err, dim)
            got = f.error.L(n=n, **kw) if n != 2 else f.error.L(**kw)
            ctx.equal(got ** n, want, tol, 'L%d error' % n)
            if hnorm:
                df, dP = D
                g = f.coboundary()
                dv = rec(g, ax)

                def derr(i):
                    return sum((a - b) ** 2 for a, b in zip(dv[i], field_at(dP, t, points(f.mesh, i, ax))))
                want = want + integral(f, ax, w, derr, dim)
                ctx.equal(f.error.H(df, **kw) ** 2, want, tol, 'H error')
            for i in list(loc)[:2]:
                ctx.equal(f.cochain.local[i], loc[i], 0, 'measuring does not change the form')


def derivative(fc, f, ID, P):
    """the derivative of the field for this form: a continuous field and its polynomials"""
    if ID.endswith('-i') or ID.endswith('-o'):
        key = (ID[0], ID[-1])
        if key == ('0', 'i'):
            d = [P[0].d(0), P[0].d(1)]
        elif key == ('0', 'o'):
            d = [P[0].d(1), -P[0].d(0)]
        elif key == ('1', 'i'):
            d = [P[1].d(0) + (-P[0].d(1))]
        else:
            d = [P[0].d(0) + P[1].d(1)]
    elif ID[0] == '0':
        d = [P[0].d(k) for k in range(3)]
    elif ID[0] == '1':
        d = [P[2].d(1) + (-P[1].d(2)), P[0].d(2) + (-P[2].d(0)), P[1].d(0) + (-P[0].d(1))]
    else:
        d = [P[0].d(0) + P[1].d(1) + P[2].d(2)]
    return continuous(fc, d), d


def multiple(ctx, dim, mesh, p, ID, n, exact_zero=True, quad=None, kind='Lobatto', tol=1e-9, fine=None):
    """error = a (fixed error), a of either sign: error.L scales with |a|; the fixed error changes sign in the domain"""
    fc = setup(dim, mesh, p, kind)
    with ctx.symbolic_code():
        f = make(fc, ID, dim)
        a = ctx.real('a', -2, 2)
        nb = f.num.basis
        base = {i: np.array([((7 * j + 3 * i) % 5 - 2) / 2. + 0.1 for j in range(nb)]) for i in f.mesh.elements.indices}
        f.cochain.local = {i: b * a for i, b in base.items()}
        nc = 1 if scalar_(ID, ndim(dim)) else ndim(dim)
        P = [Poly({(0,) * ndim(dim): a * (0.25 * (k + 1))}, ndim(dim)) for k in range(nc)]
        f.CF = continuous(fc, P)
        f.CF.current_time = 0.
        kw = {} if quad is None else dict(quad_degree=(quad,) * ndim(dim))
        if fine:
            kw['quad_density'] = fine
        got = f.error.L(n=n, **kw)
        one = f.shadow
        one.cochain.local = base
    ctx.claim(got >= 0, 'an error norm is not negative')
    return f, one, a, got, nc


def odd(ctx, dim, mesh, p, ID, n, **kw):
    f, one, a, got, nc = multiple(ctx, dim, mesh, p, ID, n, quad=2, **kw)
    ax, w = nodes(dim, 3)
    v = rec(one, ax)
    tot = integral(one, ax, w, lambda i: sum(abs(np.asarray(x, float) - 0.25 * (k + 1)) ** n for k, x in enumerate(v[i])), dim)
    ctx.equal(got ** n, abs(a) ** n * float(tot), 1e-9, 'L%d error' % n)


def largest(ctx, dim, mesh, p, ID, quad=None, fine=None):
    f, one, a, got, nc = multiple(ctx, dim, mesh, p, ID, 'infinity', quad=quad, fine=fine)
    # never more than the true maximum, and not less than the value at any of the points of a grid it contains
    x = np.linspace(-1, 1, 33)
    v = rec(one, [x] * ndim(dim))
    top = max(float(np.max(np.abs(np.asarray(c, float) - 0.25 * (k + 1)))) for vv in v.values() for k, c in enumerate(vv))
    ctx.claim(got <= abs(a) * (top * 1.02 + 1e-9), 'largest error: not larger than the error anywhere')
    ctx.claim(got >= abs(a) * (top * (0.8 if fine is None else 0.5)), 'largest error: sampled everywhere')


def energies(ctx, dim, mesh, p, ID, q=None, quad=None, tol=1e-9, kind='Lobatto', p2=None, ns=(1, 2, 3)):
    fc = setup(dim, mesh, p, kind)
    ax, w = nodes(dim, q or (p if dim == 'tri' else max(p)) * max(ns) // 2 + 3)
    fo = None
    with ctx.symbolic_code():
        f = make(fc, ID, dim)
        if p2 is not None:
            fo = fc.__class__(f.mesh, (space3 if dim == 3 else space2)(p2, kind)) if dim != 'tri' else fc
        g = make(fo or fc, ID, dim)
        f.cochain.local = {i: ctx.reals('a%d_' % i, f.num.basis) for i in f.mesh.elements.indices}
        g.cochain.local = {i: ctx.reals('b%d_' % i, g.num.basis) for i in g.mesh.elements.indices}
        v, u = rec(f, ax), rec(g, ax)
        kw = {} if quad is None else dict(quad_degree=[quad] * ndim(dim))

        def want(n):
            return integral(f, ax, w, lambda i: sum(a ** n for a in v[i]), dim)
        for n in ns:
            E = want(n)
            k2 = kw if kw or n < 3 else dict(quad_degree=[(p if dim == 'tri' else max(p)) * n // 2 + 2] * ndim(dim))
            ways = [{}] if dim == 'tri' or dim == 3 and ID[0] in '12' else [{}, dict(vectorized=True), dict(vectorized=False)]
            for o in ways:
                ctx.equal(f.do.compute_Ln_energy(n=n, **k2, **o), E, tol, 'energy n=%d %s' % (n, o))
            if n < 3:
                ctx.equal(f.do.compute_Ln_norm(n=n, **k2) ** n, E, tol, 'norm n=%d' % n)
        if quad is None:
            both = integral(f, ax, w, lambda i: sum(a * b for a, b in zip(v[i], u[i])), dim)
            if p2 is None:
                ctx.equal(f.do.compute_L2_energy_with(), want(2), tol, 'energy with itself')
                ctx.equal(f.do.compute_L2_energy_with(M=f.matrices.mass), want(2), tol, 'energy with itself, mass matrix given')
                ctx.equal(f.do.compute_L2_energy_with(g, M=f.matrices.mass), both, tol, 'energy with another form, mass matrix given')
            ctx.equal(f.do.compute_L2_energy_with(g), both, tol, 'energy with another form')
            ctx.equal(g.do.compute_L2_energy_with(f), both, tol, 'energy with another form, reversed')
        if hasattr(f.do, 'compute_Ln_diff_from'):
            diff = integral(f, ax, w, lambda i: sum((a - b) ** 2 for a, b in zip(v[i], u[i])), dim)
            ctx.equal(f.do.compute_Ln_diff_from(g, **kw) ** 2, diff, tol, 'distance of two forms')
            ctx.equal(g.do.compute_Ln_diff_from(f, **kw) ** 2, diff, tol, 'distance is symmetric')
        if ID[0] != ('3' if dim == 3 else '2') and not (dim == 'tri' and ID[0] == '1'):
            d = f.coboundary()
            dv = rec(d, ax)
            ctx.equal(f.do.compute_Ln_norm_of_coboundary(**kw) ** 2, integral(f, ax, w, lambda i: sum(a ** 2 for a in dv[i]), dim), tol,
                      'norm of the coboundary')


def shifted(ctx, dim, mesh, p, ID):
    """upon: the error does not see a constant added to the form, and a form that is the field plus a constant has none"""
    fc = setup(dim, mesh, p)
    nc = 1 if scalar_(ID, ndim(dim)) else ndim(dim)
    with ctx.symbolic_code():
        f = make(fc, ID, dim)
        P, cf = exact(ctx, fc, ID, dim, 1, tcoef=0.5)
        cf.current_time = t = ctx.real('t', 1, 4)
        a = ctx.reals('c', nc)
        k = f.shadow
        const = [Poly({(0,) * ndim(dim): v}, ndim(dim)) for v in a]
        k.CF = continuous(fc, const)
        k.CF.current_time = t
        k.discretize()
        X = {i: ctx.reals('a%d_' % i, f.num.basis) for i in f.mesh.elements.indices}
        f.CF = cf
        f.cochain.local = X
        e0 = f.error.L(upon=True)
        f.cochain.local = {i: X[i] + k.cochain.local[i] for i in X}
        ctx.equal(f.error.L(upon=True) ** 2, e0 ** 2, 1e-8, 'shifted error does not see a constant')
        f.discretize()
        if ID[0] in '0':
            f.cochain.local = {i: f.cochain.local[i] + k.cochain.local[i] for i in X}
            ctx.equal(f.error.L(upon=True) ** 2, 0, 1e-8, 'the field plus a constant')
        dv = f.error.L(upon=False) ** 2
        ax, w = nodes(dim, max(p) + 3)
        v = rec(f, ax)
        ctx.equal(dv, integral(f, ax, w, lambda i: sum((x - y) ** 2 for x, y in zip(v[i], field_at(P, t, points(f.mesh, i, ax)))), dim), 1e-8,
                  'not shifted unless asked')


def fields(ctx, dim, mesh, n, vector_=False, q=5, tol=1e-9, triangles=False):
    fc = setup(dim, mesh, (1,) * ndim(dim) if dim != 'tri' else 1)
    with ctx.symbolic_code():
        P, cf = exact(ctx, fc, '1' if vector_ else '0', ndim(dim), 1, tcoef=0.5)
        f = make(fc, '0-f' if dim == 3 else '0-f-o', dim)
        ax, w = nodes(dim, q)
        for t in (0., ctx.real('t', 0, 4)):
            cf.current_time = t
            want = integral(f, ax, w, lambda i: sum(v ** n for v in field_at(P, t, points(f.mesh, i, ax))), dim)
            kw = {} if n == (2 if vector_ else 1) else dict(n=n)
            ctx.equal(cf.do.compute_Ln_norm(**kw) ** n, want, tol, 'norm of a field n=%d' % n)


def exact_norm(ctx, dim, mesh, n, vector_=False, q=None, tol=1e-8):
    """norms of a quantity of an exact solution at the given time (not at its current time), at any current time"""
    fc = setup(dim, mesh, (1,) * dim)
    if dim == 3:
        from objects.CSCG._3d.exactSolutions.base import Base
    else:
        from objects.CSCG._2d.exactSolutions.base import Base
    with ctx.symbolic_code():
        P, cf = exact(ctx, fc, '1' if vector_ else '0', dim, 1, tcoef=0.5)
        f = make(fc, '0-f' if dim == 3 else '0-f-o', dim)
        ax, w = nodes(dim, 6)
        E = Base(f.mesh)
        E.quantity = cf
        E.current_time = 2.5
        ctx.claim(cf.current_time == 2.5, 'the time of the quantities')
        for t in (0., ctx.real('t', 0, 4)):
            want = integral(f, ax, w, lambda i: sum(v ** n for v in field_at(P, t, points(f.mesh, i, ax))), dim)
            got = E.___Pr_compute_Ln_norm_of___('quantity', time=t, n=n, **({} if q is None else dict(quad_degree=q)))
            ctx.equal(got ** n, want, tol, 'norm of a quantity n=%d' % n)


def dual(ctx, mesh, p, k, deg=1):
    """errors of a dual form are those of the field it stands for, also of its derivative"""
    fc = setup(3, mesh, p)
    d = 3 - k                                           # a dual k-form stands for a (3-k)-field
    with ctx.symbolic_code():
        f = fc('%d-adf' % k)
        P, cf = exact(ctx, fc, ('0', '1', '2', '3')[k], 3, deg, tcoef=0.5)
        f.prime.CF = cf
        cf.current_time = t = ctx.real('t', 1, 4)
        f.prime.cochain.local = {i: ctx.reals('a%d_' % i, f.prime.num.basis) for i in f.mesh.elements.indices}
        ax, w = nodes(3, max(p) + 3)
        v = rec(f.prime, ax)
        want = integral(f.prime, ax, w, lambda i: sum((a - b) ** 2 for a, b in zip(v[i], field_at(P, t, points(f.mesh, i, ax)))), 3)
        ctx.equal(f.error.L() ** 2, want, 1e-8, 'error of a dual form')
        if k == 0:
            return
        tr = fc('%d-adt' % (k - 1))
        tr.prime.cochain.local = {i: ctx.reals('b%d_' % i, tr.prime.num.basis) for i in f.mesh.elements.indices}
        Q, dfc = exact(ctx, fc, ('0', '1', '2', '3')[k - 1], 3, deg, name='d', tcoef=0.25)
        got = f.error.dH(tr, dfc)
        g = f.coboundary(tr).prime
        dv = rec(g, ax)
        want = want + integral(g, ax, w, lambda i: sum((a - b) ** 2 for a, b in zip(dv[i], field_at(Q, t, points(f.mesh, i, ax)))), 3)
        ctx.equal(got ** 2, want, 1e-7, 'error of a dual form and its derivative')


def skeleton(ctx, ID, mesh, p, fine=None):
    """the largest error of a trace or edge form"""
    fc = setup(3, mesh, p)
    with ctx.symbolic_code():
        f = fc(ID, hybrid=True)
        a = ctx.real('a', -2, 2)
        def fill(g, a):
            def val(i, n):
                return a * np.array([((7 * j + 3 * i) % 5 - 2) / 2. + 0.1 for j in range(n)])
            if ID.endswith('e'):
                g.cochain.local_EEW = {i: val(i, 2 if ID == '0-e' else 1) for i in g.mesh.edge.elements}
            else:
                g.cochain.local = {i: val(i, g.num.basis) for i in g.mesh.elements.indices}
        fill(f, a)
        f.CF = continuous(fc, [Poly({(0, 0, 0): a * 0.25}, 3)])
        f.CF.current_time = 0.
        got = f.error.L(quad_degree=(0, 0, 0)) if fine is None else f.error.L(quad_density=fine)
        one = fc(ID, hybrid=True)
        fill(one, 1.)
    x = np.linspace(-1, 1, 33)
    v = one.reconstruct(x, x, x)[1]
    top = max(float(np.max(np.abs(np.asarray(c, float) - 0.25))) for vv in v.values() for c in vv)
    ctx.claim(got <= abs(a) * (top * 1.02 + 1e-9), 'largest error: not larger than the error anywhere')
    ctx.claim(got >= abs(a) * (top * (0.8 if fine is None else 0.5)), 'largest error: sampled everywhere')


def ranks(ctx, n, dim, mesh, p, ID, upon=False, what='error'):
    """several processes: the same number on all of them, that of the whole mesh"""
    keep = {}

    def build(r):
        fc = setup(dim, mesh, p)
        keep[r] = fc, make(fc, ID, dim), fc.mesh if hasattr(fc, 'mesh') else None
    mpisim.run(n, build)
    nb = keep[0][1].num.basis
    els = sorted(e for r in range(n) for e in keep[r][1].mesh.elements.indices)
    X = {e: np.array(ctx.reals('a%d_' % e, nb)) for e in els}
    Y = {e: np.array(ctx.reals('b%d_' % e, nb)) for e in els}
    d = ndim(dim)
    P = [poly(ctx, 'u%d' % k, 1, d) for k in range(1 if scalar_(ID, d) else d)]

    def work(r):
        fc, f, _ = keep[r]
        I = list(f.mesh.elements.indices)
        f.cochain.local = {i: X[i] for i in I}
        f.CF = continuous(fc, P)
        f.CF.current_time = 0.
        g = f.shadow
        g.cochain.local = {i: Y[i] for i in I}
        out = [f.error.L() ** 2, f.do.compute_L2_energy_with(g), f.do.compute_Ln_energy(n=2), f.do.compute_Ln_energy(n=1)]
        if hasattr(f.do, 'compute_Ln_diff_from'):
            out.append(f.do.compute_Ln_diff_from(g) ** 2)
        ax, w = nodes(dim, max(p) + 3 if dim != 'tri' else p + 3)
        v, u = rec(f, ax), rec(g, ax)
        want = [integral(f, ax, w, lambda i: sum((a - b) ** 2 for a, b in zip(v[i], field_at(P, 0., points(f.mesh, i, ax)))), dim),
                integral(f, ax, w, lambda i: sum(a * b for a, b in zip(v[i], u[i])), dim),
                integral(f, ax, w, lambda i: sum(a * a for a in v[i]), dim), integral(f, ax, w, lambda i: sum(v[i]), dim),
                integral(f, ax, w, lambda i: sum((a - b) ** 2 for a, b in zip(v[i], u[i])), dim)]
        return out, want
    with ctx.symbolic_code():
        got = mpisim.run(n, work)
    for k in range(len(got[0][0])):
        want = sum(g[1][k] for g in got)
        for r in range(n):
            ctx.equal(got[r][0][k], want, 1e-8, '%d processes: quantity %d on process %d' % (n, k, r))


TRI = dict(ID='square', K=1)
REG2 = dict(ID='cic', layout=(1, 1))
CURV2 = dict(ID='crazy', layout=(2, 1), c=0.1)
CURV3 = dict(ID='crazy', layout=(1, 2, 1), c=0.1)
UNEQ2 = dict(ID='crazy', layout=([1, 3], [2, 1, 1]), c=0.)
HARNESSES = [
    S_('L2 2D', C(l2, 2, FLAT2, (1, 2), '0-f-o', hnorm=True), C(l2, 2, FLAT2, (1, 2), '1-f-i', hnorm=True),
       C(l2, 2, UNEQ2, (2, 1), '2-f-o')),
    S_('L2 2D others', C(l2, 2, FLAT2, (2, 1), '0-f-i', hnorm=True), C(l2, 2, UNEQ2, (1, 1), '1-f-o', hnorm=True),
       C(l2, 2, REG2, (1, 1), '2-f-i', quad=4, q=5)),
    S_('L2 3D', C(l2, 3, FLAT3, (1, 2, 1), '0-f', hnorm=True), C(l2, 3, FLAT3, (1, 1, 2), '3-f')),
    S_('L2 3D 1', C(l2, 3, FLAT3, (1, 1, 1), '1-f', hnorm=True)),
    S_('L2 3D 2', C(l2, 3, FLAT3, (1, 1, 1), '2-f', hnorm=True)),
    S_('L2 triangles', C(l2, 'tri', TRI, 1, '0-f-o', hnorm=True), C(l2, 'tri', TRI, 1, '1-f-i', hnorm=True)),
    S_('L2 curved', C(l2, 2, CURV2, (1, 1), '1-f-o', quad=11, q=12, tol=1e-6, hnorm=True),
       C(l2, 3, CURV3, (1, 1, 1), '0-f', quad=9, q=10, tol=1e-6)),
    S_('L4', C(l2, 2, dict(ID='crazy', layout=(1, 1), c=0.), (1, 1), '1-f-o', n=4, quad=5, k=(0,)), C(l2, 'tri', dict(ID='square', K=1), 1, '0-f-i', n=4, quad=5, k=(0,))),
    S_('energies 2D', C(energies, 2, FLAT2, (1, 2), '0-f-i'), C(energies, 2, FLAT2, (1, 2), '1-f-o'), C(energies, 2, UNEQ2, (1, 1), '2-f-o')),
    S_('energies 2D others', C(energies, 2, FLAT2, (1, 2), '1-f-i', p2=(2, 1)), C(energies, 2, UNEQ2, (1, 1), '0-f-o', p2=(2, 2), ns=(1, 2)),
       C(energies, 2, CURV2, (1, 1), '1-f-o', quad=11, q=12, tol=1e-6, ns=(1, 2))),
    S_('energies 3D', C(energies, 3, FLAT3, (1, 2, 1), '0-f'), C(energies, 3, FLAT3, (1, 1, 1), '3-f')),
    S_('energies 3D 1', C(energies, 3, FLAT3, (1, 1, 1), '1-f', p2=(2, 1, 1), ns=(1, 2))),
    S_('energies 3D 2', C(energies, 3, CURV3, (1, 1, 1), '2-f', quad=9, q=10, tol=1e-6, ns=(1, 2))),
    S_('energies triangles', C(energies, 'tri', TRI, 1, '0-f-o'), C(energies, 'tri', TRI, 1, '1-f-o')),
    S_('odd 2D', C(odd, 2, FLAT2, (1, 2), '0-f-i', 1), C(odd, 2, FLAT2, (1, 2), '1-f-o', 1), C(odd, 2, FLAT2, (1, 1), '2-f-i', 1)),
    S_('odd others', C(odd, 3, FLAT3, (1, 1, 1), '0-f', 1), C(odd, 3, FLAT3, (1, 1, 1), '2-f', 1), C(odd, 'tri', TRI, 1, '1-f-o', 1)),
    S_('largest', C(largest, 3, FLAT3, (1, 1, 1), '0-f', quad=0), C(largest, 3, FLAT3, (1, 1, 1), '2-f', quad=0), C(largest, 3, FLAT3, (2, 1, 1), '1-f', fine=400)),
    S_('shifted', C(shifted, 2, FLAT2, (1, 2), '0-f-o'), C(shifted, 2, FLAT2, (1, 1), '2-f-i'), C(shifted, 3, FLAT3, (1, 1, 1), '0-f'),
       C(shifted, 3, FLAT3, (1, 1, 1), '2-f')),
    S_('exact solutions', C(exact_norm, 2, UNEQ2, 1), C(exact_norm, 2, FLAT2, 2, True, q=(4, 5)), C(exact_norm, 3, FLAT3, 1, q=(5, 4, 6)), C(exact_norm, 3, FLAT3, 2, True, q=(4, 3, 4))),
    S_('fields', C(fields, 2, UNEQ2, 1), C(fields, 2, FLAT2, 2), C(fields, 2, FLAT2, 2, True), C(fields, 3, FLAT3, 1), C(fields, 3, FLAT3, 2, True)),
    S_('dual', C(dual, FLAT3, (1, 1, 1), 3), C(dual, FLAT3, (1, 1, 1), 2)),
    S_('dual 1', C(dual, FLAT3, (1, 1, 1), 1), C(dual, FLAT3, (1, 1, 1), 0)),
    S_('skeleton', C(skeleton, '0-t', FLAT3, (1, 1, 1)), C(skeleton, '2-t', FLAT3, (1, 1, 1), fine=400), C(skeleton, '0-e', FLAT3, (1, 1, 1)),
       C(skeleton, '0-e', FLAT3, (1, 1, 1), fine=400)),
    S_('processes', C(ranks, 2, 2, FLAT2, (1, 1), '1-f-o'), C(ranks, 3, 2, dict(ID='crazy', layout=(2, 2), c=0.), (1, 1), '0-f-i')),
    S_('processes 3D', C(ranks, 3, 3, dict(ID='crazy', layout=(2, 2, 1), c=0.), (1, 1, 1), '0-f'), C(ranks, 2, 3, FLAT3, (1, 1, 1), '2-f')),
    S_('processes triangles', C(ranks, 2, 'tri', TRI, 1, '0-f-o')),
]
