"""C04: basis functions are nodal / histopolant at every point."""
import numpy as np
from engine.harness import H
from checks.common import *

BOUNDS = ('1D: Lobatto, extended Gauss and own (unequally spaced) nodes, degree 1..8 (own: 1..4), every point of the '
          'interval, every coefficient vector in [-1,1]; 2D/3D/triangle: degrees 1..3 mixed per direction and mixed '
          'families, every point of the square/cube.')
ASSUMPTIONS = ['degrees above the listed ones are not explored']


def pts(*v):
    """one evaluation point per direction, as the (object) arrays the library takes."""
    return [np.array([i], dtype=None if isinstance(i, float) else object) for i in v]


def one(ctx, kind, ps):
    from objects.CSCG.base.spaces._1d_basis.polynomials import _1dPolynomial
    for p in ps:
        b = _1dPolynomial(FREE[p]) if kind == 'free' else _1dPolynomial(kind, p)
        nodes = np.asarray(b.nodes, float)
        ctx.claim(b.p == p and len(nodes) == p + 1, 'degree and nodes')
        ctx.equal([nodes[0], nodes[-1]], [-1, 1], 1e-12, 'end nodes')
        x = ctx.real('x%d' % p)
        y = ctx.real('y%d' % p)
        c = ctx.reals('c%d' % p, p + 1)
        with ctx.symbolic_code():
            L = b.node_basis(x=np.array([x]))
            E = b.edge_basis(x=np.array([x]))
            Ly = b.node_basis(x=np.array([y]))
            Ey = b.edge_basis(x=np.array([y]))
            L2 = b.node_basis(x=np.array([x]))
            E2 = b.edge_basis(x=np.array([x]))
        ctx.claim(L.shape == (p + 1, 1) and E.shape == (p, 1), 'basis shapes')
        ctx.equal(np.sum(L[:, 0]), 1, 1e-9, 'partition of unity')
        ctx.equal(L, L2, 1e-9, 'same point again, nodal')
        ctx.equal(E, E2, 1e-9, 'same point again, edge')
        # the Lagrange interpolant of the nodes, written out
        R, Ry = [], []
        for i in range(p + 1):
            r, ry = 1., 1.
            for j in range(p + 1):
                if j != i:
                    r = r * ((x - nodes[j]) / (nodes[i] - nodes[j]))
                    ry = ry * ((y - nodes[j]) / (nodes[i] - nodes[j]))
            R.append(r)
            Ry.append(ry)
        ctx.equal(L[:, 0], np.array(R), 1e-8, 'nodal basis is the Lagrange basis')
        ctx.equal(Ly[:, 0], np.array(Ry), 1e-8, 'nodal basis is the Lagrange basis')
        # d/dx sum c_i l_i = sum (c_{i+1}-c_i) e_i

        def expand(xx):
            B = _1dPolynomial(FREE[p]) if kind == 'free' else _1dPolynomial(kind, p)
            with ctx.symbolic_code():
                return np.dot(c, B.node_basis(x=np.array([xx]))[:, 0])
        ctx.equal(ctx.deriv(expand, [x], 0), np.dot(c[1:] - c[:-1], E[:, 0]), 1e-7, 'derivative of the nodal expansion',
                  deriv=True)
        ctx.equal(ctx.deriv(expand, [y], 0), np.dot(c[1:] - c[:-1], Ey[:, 0]), 1e-7, 'derivative of the nodal expansion',
                  deriv=True)
        # the same array object, refilled by the caller with another point
        X = np.array([x])
        with ctx.symbolic_code():
            B = _1dPolynomial(FREE[p]) if kind == 'free' else _1dPolynomial(kind, p)
            B.node_basis(x=X), B.edge_basis(x=X)
            X[0] = y
            La, Ea = B.node_basis(x=X), B.edge_basis(x=X)
        ctx.equal(La, Ly, 1e-9, 'array refilled with another point, nodal')
        ctx.equal(Ea, Ey, 1e-9, 'array refilled with another point, edge')
        with ctx.symbolic_code():
            D = b.node_basis(x=nodes)
        ctx.equal(np.asarray(D), np.eye(p + 1), 1e-9, 'one at own node, zero at the others')
        g, w = np.polynomial.legendre.leggauss(p + 2)
        I = 0
        d = ctx.reals('d%d' % p, p)
        for k in range(p):
            a0, a1 = nodes[k], nodes[k + 1]
            with ctx.symbolic_code():
                V = np.asarray(b.edge_basis(x=a0 + (g + 1) / 2 * (a1 - a0)))
            ctx.equal(np.dot(d, np.dot(V, w)) * ((a1 - a0) / 2), d[k], 1e-9, 'edge expansion integrates to the coefficient')
        # reference mass matrices are the integrals
        g, w = np.polynomial.legendre.leggauss(p + 3)
        Lg, Eg = b.node_basis(x=g), b.edge_basis(x=g)
        e = ctx.reals('e%d' % p, p + 1)
        with ctx.symbolic_code():
            Mn, Me = b.node_reference_mass_matrix, b.edge_reference_mass_matrix
        ctx.equal(np.dot(c, np.dot(Mn, e)), np.dot(w * np.dot(c, Lg), np.dot(e, Lg)), 1e-9, 'nodal mass matrix')
        ctx.equal(np.dot(c[1:], np.dot(Me, d)), np.dot(w * np.dot(c[1:], Eg), np.dot(d, Eg)), 1e-9, 'edge mass matrix')


def near(ctx, kind, p):
    """values at a point do not depend on the points asked for before, however close."""
    from objects.CSCG.base.spaces._1d_basis.polynomials import _1dPolynomial
    make = (lambda: _1dPolynomial(FREE[p])) if kind == 'free' else (lambda: _1dPolynomial(kind, p))
    b = make()
    nodes = np.asarray(b.nodes, float)
    for k, x in enumerate((-0.9, 0.3, 1 - 1e-7, 0.)):
        y = ctx.real('y%d' % k, x - 2e-5, x + 2e-5)
        ctx.assume(y != x)
        c = ctx.reals('c%d' % k, p + 1)
        with ctx.symbolic_code():
            b.node_basis(x=np.array([x])), b.edge_basis(x=np.array([x]))
            L, E = b.node_basis(x=np.array([y])), b.edge_basis(x=np.array([y]))
        R, F = _1d(ctx, nodes, y)
        ctx.equal(L[:, 0], np.array(R), 1e-9, 'nodal basis next to the points of an earlier call')
        ctx.equal(E[:, 0], np.array(F), 1e-9, 'edge basis next to the points of an earlier call')


def _1d(ctx, b, x):
    """nodal and edge basis of the definition, by the verified 1D identities (reference written out)."""
    n = np.asarray(b, float)
    p = len(n) - 1
    L = []
    for i in range(p + 1):
        r = 1.
        for j in range(p + 1):
            if j != i:
                r = r * ((x - n[j]) / (n[i] - n[j]))
        L.append(r)
    # derivative of l_i
    dL = []
    for i in range(p + 1):
        s = 0
        for m in range(p + 1):
            if m == i:
                continue
            r = 1. / (n[i] - n[m])
            for j in range(p + 1):
                if j not in (i, m):
                    r = r * ((x - n[j]) / (n[i] - n[j]))
            s = s + r
        dL.append(s)
    E, acc = [], 0
    for i in range(p):
        acc = acc - dL[i]
        E.append(acc)
    return L, E


def form3(ctx, p, kind):
    s = space3(p, kind)
    x, y, z = ctx.real('x'), ctx.real('y'), ctx.real('z')
    B = [_1d(ctx, n, v) for n, v in zip(s.nodes, (x, y, z))]
    #                 which family per direction, per component
    fam = {0: [(0, 0, 0)], 1: [(1, 0, 0), (0, 1, 0), (0, 0, 1)], 2: [(0, 1, 1), (1, 0, 1), (1, 1, 0)], 3: [(1, 1, 1)]}
    for k in range(4):
        with ctx.symbolic_code():
            m, basis = s.do.evaluate_form_basis_at_meshgrid(k, *pts(x, y, z))
        ctx.equal([m[0][0], m[1][0], m[2][0]], [x, y, z], 1e-12, 'points')
        LN = getattr(s.local_numbering, '_3dCSCG_%dForm' % k)
        off = 0
        for ln, f, b in zip(LN, fam[k], basis):
            ctx.claim(sorted(ln.ravel()) == list(range(off, off + ln.size)) and ln.size == len(b), 'local numbering counts')
            for i, j, l in np.ndindex(ln.shape):
                ctx.equal(b[ln[i, j, l] - off, 0], B[0][f[0]][i] * B[1][f[1]][j] * B[2][f[2]][l], 1e-8,
                          '%d-form basis is the product in local-numbering order' % k)
            off += ln.size
    # several points at once: the first direction runs fastest
    X = [np.array([-0.4, 0.3, 0.8]), np.array([-0.9, 0.1]), np.array([0.2, 0.5, 0.6, 0.9])]
    c = ctx.reals('c', s.num_basis._3dCSCG_0Form[0])
    m, basis = s.do.evaluate_form_basis_at_meshgrid(0, *X)
    n = 0
    for l in range(4):
        for j in range(2):
            for i in range(3):
                P = (X[0][i], X[1][j], X[2][l])
                ctx.equal([m[0][n], m[1][n], m[2][n]], P, 1e-14, 'grid order')
                R = [_1d(ctx, nn, v)[0] for nn, v in zip(s.nodes, P)]
                ref = np.kron(np.kron(R[2], R[1]), R[0])
                ctx.equal(np.dot(c, basis[0][:, n]), np.dot(c, ref), 1e-8, 'expansion on a grid')
                n += 1
    # quadrature variant
    q = (2, 1, 3)
    for k in (0, 1, 2, 3):
        m, bq, w, wr = s.do.evaluate_form_basis_at_quadrature(k, q)
        g = [np.polynomial.legendre.leggauss(i + 1) for i in q]
        _, bg = s.do.evaluate_form_basis_at_meshgrid(k, *[i[0] for i in g])
        WR = np.kron(np.kron(g[2][1], g[1][1]), g[0][1])
        for n, (a, b) in enumerate(zip(bq, bg)):
            cc = ctx.reals('k%d_%d_' % (k, n), len(a))
            ctx.equal(np.dot(cc, a) * wr, np.dot(cc, b) * WR, 1e-9, 'basis at quadrature points')
    # trace basis
    ends = {'N': (0, 1, 2), 'S': (0, 1, 2), 'W': (1, 0, 2), 'E': (1, 0, 2), 'B': (2, 0, 1), 'F': (2, 0, 1)}
    tf = {0: [(0, 0)], 1: [(1, 0), (0, 1)], 2: [(1, 1)]}
    for k in range(3):
        for ev in ('evaluate_trace_basis_at_meshgrid', 'evaluate_local_trace_basis_at_meshgrid'):
            with ctx.symbolic_code():
                m, basis = getattr(s.do, ev)(k, *pts(x, y, z))
            LN = getattr(s.local_numbering, '_3dCSCG_%dTrace' % k)
            for side, (d, a, b) in ends.items():
                e = -1. if side in 'NWB' else 1.
                P = [x, y, z]
                P[d] = e
                ctx.equal([m[side][0][0], m[side][1][0], m[side][2][0]], P, 1e-12, 'trace points')
                ln = LN[side]
                ln = ln if isinstance(ln, (tuple, list)) else (ln,)
                off = 0
                for comp, f, bb in zip(ln, tf[k], basis[side]):
                    ctx.claim(comp.size == len(bb), 'trace local numbering counts')
                    for i, j in np.ndindex(comp.shape):
                        ctx.equal(bb[comp[i, j] - off, 0], B[a][f[0]][i] * B[b][f[1]][j], 1e-8,
                                  'trace basis is the product in local-numbering order')
                    off += comp.size
    for k in (0, 1):
        with ctx.symbolic_code():
            basis = s.do.evaluate_edge_basis_at_meshgrid(k, *pts(x, y, z))
        for en, d in (('WB', 0), ('EB', 0), ('WF', 0), ('EF', 0), ('NB', 1), ('SB', 1), ('NF', 1), ('SF', 1),
                      ('NW', 2), ('SW', 2), ('NE', 2), ('SE', 2)):
            ctx.equal(basis[en][0][:, 0], np.array(B[d][k]), 1e-8, 'edge-element basis')


def form2(ctx, p, kind):
    s = space2(p, kind)
    x, y = ctx.real('x'), ctx.real('y')
    B = [_1d(ctx, n, v) for n, v in zip(s.nodes, (x, y))]
    fam = {(0, 'inner'): [(0, 0)], (0, 'outer'): [(0, 0)], (1, 'inner'): [(1, 0), (0, 1)], (1, 'outer'): [(0, 1), (1, 0)],
           (2, 'inner'): [(1, 1)], (2, 'outer'): [(1, 1)]}
    for (k, o), ff in fam.items():
        with ctx.symbolic_code():
            m, basis = s.do.evaluate_form_basis_at_meshgrid(k, *pts(x, y), orientation=o)
        ctx.equal([m[0][0], m[1][0]], [x, y], 1e-12, 'points')
        LN = getattr(s.local_numbering, '_2dCSCG_%dForm_%s' % (k, o.capitalize()))
        off = 0
        for ln, f, b in zip(LN, ff, basis):
            ctx.claim(sorted(ln.ravel()) == list(range(off, off + ln.size)) and ln.size == len(b), 'local numbering counts')
            for i, j in np.ndindex(ln.shape):
                ctx.equal(b[ln[i, j] - off, 0], B[0][f[0]][i] * B[1][f[1]][j], 1e-8,
                          '%d-form %s basis is the product in local-numbering order' % (k, o))
            off += ln.size
    for k in (0, 1):
        with ctx.symbolic_code():
            m, basis = s.do.evaluate_trace_basis_at_meshgrid(k, *pts(x, y))
        for side, d, e in (('U', 1, -1.), ('D', 1, 1.), ('L', 0, -1.), ('R', 0, 1.)):
            P = [x, y]
            P[1 - d] = e
            ctx.equal([m[side][0][0], m[side][1][0]], P, 1e-12, 'trace points')
            ctx.equal(basis[side][0][:, 0], np.array(B[d][k]), 1e-8, 'trace basis')
    q = (3, 2)
    with ctx.symbolic_code():
        nodes, w, wr = s.do.evaluate_quadrature(q)
    g = [np.polynomial.legendre.leggauss(i + 1) for i in q]
    c = ctx.reals('c', 12)
    ctx.equal(np.dot(c, np.asarray(wr)), np.dot(c, np.kron(g[1][1], g[0][1])), 1e-10, 'quadrature weights, ravelled')


def tri1(ctx, p):
    from objects.miUsGrid.triangular.space.main import miUsGrid_TriangularFunctionSpace
    s = miUsGrid_TriangularFunctionSpace(p)
    x, y = ctx.real('x'), ctx.real('y')
    X, Y = _1d(ctx, s.nodes, x), _1d(ctx, s.nodes, y)
    E = s.evaluation
    for o in ('Inner', 'Outer'):
        with ctx.symbolic_code():
            b0 = getattr(E, 'miUsTriangular_S0F_' + o)(*pts(x, y))[1]
            b1 = getattr(E, 'miUsTriangular_S1F_' + o)(*pts(x, y))[1]
            b2 = getattr(E, 'miUsTriangular_S2F_' + o)(*pts(x, y))[1]
        # singular vertex: its coefficient is shared by the whole collapsed side (second coordinate -1)
        ln = getattr(s.local_numbering, 'miUsTriangular_S0F_' + o)[0]
        acc = {}
        for i, j in np.ndindex(ln.shape):
            acc[ln[i, j]] = acc.get(ln[i, j], 0) + X[0][i] * Y[0][j]
        # local numbering: index [i, j] with j=0 the collapsed side
        ctx.claim(len(acc) == len(b0[0]), '0-form basis count')
        T0 = sum(b0[0][k, 0] for k in range(len(b0[0])))
        ctx.equal(T0, 1, 1e-9, '0-form partition of unity')
        for k in acc:
            swap = {}
            ctx.equal(b0[0][k, 0], _trib0(X, Y, k, p), 1e-8, '0-form basis with collapsed side')
        comps = b1 if o == 'Inner' else (b1[1], b1[0])
        dx, dy = comps
        for i, j in np.ndindex((p, p)):
            ctx.equal(dx[j * p + i, 0], X[1][i] * Y[0][j + 1], 1e-8, '1-form dx basis')
        for i, j in np.ndindex((p + 1, p)):
            ctx.equal(dy[j * (p + 1) + i, 0], X[0][i] * Y[1][j], 1e-8, '1-form dy basis')
        for i, j in np.ndindex((p, p)):
            ctx.equal(b2[0][j * p + i, 0], X[1][i] * Y[1][j], 1e-8, '2-form basis')


def _trib0(X, Y, k, p):
    if k == 0:
        return Y[0][0] * sum(X[0])
    j, i = divmod(k - 1, p + 1)
    return X[0][i] * Y[0][j + 1]


def refine(ctx):
    for p, dp in (((1, 2, 3), (2, 3, 4)), ((2, 1, 1), (0, 1, 2))):
        with ctx.symbolic_code():
            s = space3(p).do.refine(dp)
        ctx.claim(tuple(s.p) == tuple(a + b for a, b in zip(p, dp)), 'refined 3D space has degree p+dp')
        x = ctx.real('x%d' % p[0])
        for b, n in zip(s.basises, [a + b for a, b in zip(p, dp)]):
            with ctx.symbolic_code():
                ctx.equal(np.sum(b.node_basis(x=np.array([x]))), 1, 1e-8, 'refined basis sums to one')
    for p, dp in (((1, 2), (2, 3)), ((2, 1), (0, 2))):
        with ctx.symbolic_code():
            s = space2(p).do.refine(dp)
        ctx.claim(tuple(s.p) == tuple(a + b for a, b in zip(p, dp)), 'refined 2D space has degree p+dp')
        x = ctx.real('y%d' % p[0])
        for b in s.basises:
            with ctx.symbolic_code():
                ctx.equal(np.sum(b.node_basis(x=np.array([x]))), 1, 1e-8, 'refined basis sums to one')


HARNESSES = [
    H('1d-lobatto', one, kind='Lobatto', ps=[1, 2, 3, 4, 5, 6]),
    H('1d-ext', one, kind='extended_Gauss', ps=[2, 3, 4, 5]),
    H('1d-free', one, kind='free', ps=[1, 2, 3, 4]),
    H('near-lobatto', near, kind='Lobatto', p=5),
    H('near-free', near, kind='free', p=3),
    H('1d-lobatto-t', one, tier='thorough', kind='Lobatto', ps=[7, 8]),
    H('3d-123', form3, p=(1, 2, 3), kind='Lobatto'),
    H('3d-free', form3, p=(3, 1, 2), kind='free'),
    H('3d-mix', form3, p=(2, 3, 1), kind=('extended_Gauss', 'Lobatto', 'free')),
    H('2d-23', form2, p=(2, 3), kind='Lobatto'),
    H('2d-free', form2, p=(3, 2), kind='free'),
    H('tri-1', tri1, p=1),
    H('tri-3', tri1, p=3),
    H('refine', refine),
]
