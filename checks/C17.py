"""C17: algebraic dual forms represent the dual pairing and integration by parts."""
import numpy as np
from . import oracle as O
from . import common as CM
from checks.common import poly
from checks.C13 import S_, C as K
from checks.C16 import make, SIDES, SIGN, NORMAL, FLAT, CURVED, side_geometry, A_, els_, field_of, restricted

BOUNDS = ('degrees 1-3 (different per direction), meshes of 2-9 elements (orthogonal unequal, curved, several regions); all coefficient vectors, all '
          'polynomial fields of the degree of the space, dual forms as the form caller makes them (hybrid)')
ASSUMPTIONS = ['reconstruction (C03, C16) is decided by its own checks', 'mass matrices are inverted in floating point: compared to 1e-7 relative']
NAMES = {0: 'grad', 1: 'curl', 2: 'div'}


def quad(q):
    g, w = np.polynomial.legendre.leggauss(q)
    return [g] * 3, np.multiply.outer(np.multiply.outer(w, w), w).ravel('F'), np.multiply.outer(w, w).ravel('F')


def ip(x, y):
    return sum(np.asarray(a) * np.asarray(b) for a, b in zip(x, y))


def dual(ctx, ID, mesh, p):
    """dual cochain = mass matrix times primal cochain, and back; all views follow; errors are those of the primal form"""
    m, fc = make(mesh, p)
    a = fc(ID)
    f = a.prime
    with ctx.symbolic_code():
        M, iM = {}, {}
        for e in m.elements:
            M[e], iM[e] = A_(a.mass_matrix[e]), A_(a.inverse_mass_matrix[e])
            ctx.claim(np.allclose(M[e] @ iM[e], np.eye(len(M[e])), atol=1e-8) and np.allclose(M[e], M[e].T, atol=1e-12), 'inverse and symmetry of the mass matrix')
        ew = None
        for r in range(2):
            v = {e: ctx.reals('v%d_%d_' % (r, e), f.num.basis) for e in m.elements}
            f.cochain.local = v
            L = a.cochain.local
            ew = ew or a.cochain.EWC if ID.endswith('f') else None
            for e in m.elements:
                want = M[e] @ v[e]
                ctx.equal(L[e], want, 1e-10, 'dual cochain = mass matrix @ primal cochain')
                ctx.equal(a.cochain[e], want, 1e-10, 'cochain[i]')
                if ew is not None:
                    ctx.equal(np.asarray(ew[e].toarray()).ravel(), want, 1e-10, 'EWC follows the cochain')
            ctx.claim(len(L) == len(m.elements) and set(L) == set(m.elements), 'a value per element')
            w = {e: ctx.reals('w%d_%d_' % (r, e), f.num.basis) for e in m.elements}
            a.cochain.local = w
            for e in m.elements:
                ctx.equal(M[e] @ f.cochain.local[e], w[e], 1e-7, 'setting the dual cochain sets the primal one')
                ctx.equal(a.cochain.local[e], w[e], 1e-7, 'the dual cochain is the one that was set')


def spread(ctx, ID, mesh, p):
    """a global vector is distributed to the dual cochain"""
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    from scipy.sparse import csc_matrix
    m, fc = make(mesh, p)
    a = fc(ID)
    f = a.prime
    with ctx.symbolic_code():
        from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
        n = f.num.global_dofs
        ctx.claim(a.num.global_dofs == n and a.num.basis == f.num.basis, 'numbers of dofs')
        G = f.numbering.gathering
        for k, mk in enumerate((lambda v: LocallyFullVector(np.array(v)), lambda v: DistributedVector(csc_matrix(np.array(v)[:, None])))):
            v = ctx.reals('g%d_' % k, n)
            a.cochain.globe = mk(v)
            for e in m.elements:
                ctx.equal(a.cochain.local[e], v[G[e].full_vector], 1e-7, 'dual cochain from a global vector')


def trace_functional(m, t, side_values, q):
    """{element: dual trace cochain}: integrals of a function over the sides against the trace basis functions"""
    gx, w3, w2 = quad(q)
    T = m.trace.elements.map
    out = {}
    for e in m.elements:
        L = []
        for s, te in zip(SIDES, T[e]):
            n = t.num.basis_onside[s]
            x, nv, area = side_geometry(m, e, s, gx)
            F = side_values(x, [np.asarray(c) / area for c in nv])
            for i in range(n):
                t.cochain._local_TEW_ = {te: np.eye(n)[i]}
                B = t.reconstruct(*gx, ravel=True, trace_element_range=te)[1][te]
                L.append((ip(B, F) * area * w2).sum())
        out[e] = np.array(L)
    t.cochain._local_TEW_ = None
    return out


def by_parts(ctx, k, mesh, p, deg, tol=1e-7):
    """the dual derivative of the dual (k+1)-form of a polynomial field is its derivative, weakly, against every k-form"""
    m, fc = make(mesh, p)
    d, t = fc('%d-adf' % (k + 1)), fc('%d-adt' % k)
    q = max(p) + 2
    gx, w3, w2 = quad(q)
    with ctx.symbolic_code():
        F, _ = field_of(ctx, fc, 's' if k == 2 else 'v', p, deg=deg)
        D = lambda x: [g(0., *x) for g in F]
        if k == 0:      # divergence
            R = lambda x: [sum(F[j].d(j)(0., *x) for j in range(3))]
            tr = lambda x, n: [ip(D(x), n)]
        elif k == 1:    # curl; the trace is b x n
            R = lambda x: [F[2].d(1)(0., *x) - F[1].d(2)(0., *x), F[0].d(2)(0., *x) - F[2].d(0)(0., *x), F[1].d(0)(0., *x) - F[0].d(1)(0., *x)]
            tr = lambda x, n: O._cross(D(x), n)
        else:
            R = lambda x: [F[0].d(j)(0., *x) for j in range(3)]
            tr = lambda x, n: D(x)
        d.prime.CF = fc('scalar', F[0].func()) if k == 2 else fc('vector', tuple(g.func() for g in F))
        d.prime.CF.current_time = 0.
        d.prime.discretize()
        t.cochain.local = trace_functional(m, t.prime, tr, q)
        r = d.coboundary(t)
        ctx.claim(r.k == k and r.prime.k == k and r.__class__.__name__ == '_3dCSCG_S%d_ADF' % k and r.mesh is m and r.space is d.space
                  and r.orientation == d.orientation and r.prime.whether.hybrid is d.prime.whether.hybrid, 'the result is a dual form of one degree less')
        f = fc('%d-f' % k, hybrid=True)
        for e in els_(m, mesh):
            a = ctx.reals('a%d_' % e, f.num.basis)
            f.cochain.local = {i: (a if i == e else np.zeros(len(a))) for i in m.elements}
            V = f.reconstruct(*gx, ravel=True)[1][e]
            pts = O.grid(*gx)
            el = m.elements[e]
            x = el.coordinate_transformation.mapping(*pts)
            J = np.abs(O.det(O._jac(el, pts)))
            ctx.equal(a @ r.cochain.local[e], (ip(V, R(x)) * J * w3).sum(), tol, 'integration by parts (%s)' % NAMES[k])


def discrete(ctx, k, mesh, p, hybrid=True):
    """<f, d* u> = -+ <d f, u> +- <tr f, tr u> for arbitrary coefficient vectors on any mesh"""
    m, fc = make(mesh, p)
    d, t = fc('%d-adf' % (k + 1)), fc('%d-adt' % k)
    f = fc('%d-f' % k, hybrid=True)
    tt = fc('%d-t' % k, hybrid=True)
    s1 = -1 if k in (0, 2) else 1
    with ctx.symbolic_code():
        E, N = f.matrices.incidence, tt.matrices.trace
        for r in range(2):
            u = {e: ctx.reals('u%d_%d_' % (r, e), d.prime.num.basis) for e in m.elements}
            v = {e: ctx.reals('v%d_%d_' % (r, e), t.prime.num.basis) for e in m.elements}
            d.prime.cochain.local = u
            t.prime.cochain.local = v
            R = d.coboundary(t).cochain.local
            for e in els_(m, mesh):
                a = ctx.reals('a%d_%d_' % (r, e), f.num.basis)
                want = s1 * (A_(E[e]) @ a) @ (A_(d.mass_matrix[e]) @ u[e]) - s1 * (A_(N[e]) @ a) @ (A_(t.mass_matrix[e]) @ v[e])
                ctx.equal(a @ R[e], want, 1e-7, 'discrete integration by parts (%s)' % NAMES[k])
            ctx.claim(np.array_equal(A_(t.matrices.trace[0]), A_(N[0])), 'dual and primal trace matrices are the same')


def trace_mass(ctx, k, mesh, p, tol=1e-9, q=None):
    """the element-wise mass matrix of a dual trace form is the integral over the element boundary"""
    m, fc = make(mesh, p)
    a = fc('%d-adt' % k)
    t = a.prime
    gx, w3, w2 = quad(q or max(p) + 2)
    T = m.trace.elements.map
    for e in els_(m, mesh):
        x, y = ctx.reals('x%d_' % e, t.num.basis), ctx.reals('y%d_' % e, t.num.basis)
        with ctx.symbolic_code():
            o, want = 0, 0
            for s, te in zip(SIDES, T[e]):
                n = t.num.basis_onside[s]
                V = []
                for z in (x, y):
                    t.cochain._local_TEW_ = {te: z[o:o + n]}
                    V.append(t.reconstruct(*gx, ravel=True, trace_element_range=te)[1][te])
                o += n
                want = want + (ip(*V) * side_geometry(m, e, s, gx)[2] * w2).sum()
            ctx.equal(x @ (A_(a.mass_matrix[e]) @ y), want, tol, 'mass matrix = integral over the boundary of the element')


def pairing(ctx, mesh, p, dirichlet, time=None):
    """2-form hybrid pairing: inner rows pair the traces, Neumann rows impose the normal component, Dirichlet rows the dual trace"""
    m, fc = make(mesh, p)
    f, a = fc('2-f', hybrid=True), fc('2-adt')
    names = list(m.boundaries.names)
    with ctx.symbolic_code():
        F, cf = field_of(ctx, fc, 'v', p, deg=1)
        S, cs = field_of(ctx, fc, 's', p, name='s', deg=1)
        tc = ctx.real('tc')
        for g in F + S:
            g.tcoef = tc
        cf, cs = fc('vector', tuple(g.func() for g in F)), fc('scalar', S[0].func())
        f.BC.CF = cf
        f.BC.boundaries = [n for n in names if n not in dirichlet]
        a.prime.BC.CF = cs
        a.BC.boundaries = list(dirichlet)
        tm = 0 if time is None else time
        T, D, b = f.special.hybrid_pairing(a, **({} if time is None else dict(time=time)))
        o = fc('2-f', hybrid=True)
        o.CF = fc('vector', tuple(g.func() for g in F))
        o.CF.current_time = tm
        o.discretize()
        at = fc('2-adt')
        at.prime.CF = fc('scalar', S[0].func())
        at.prime.CF.current_time = tm
        at.prime.discretize()
        N = fc('2-t', hybrid=True).matrices.trace
        R = {}
        for n in names:
            for pos in m.boundaries.range_of_element_sides.get(n, []):
                R[pos] = n
        st = {}
        k = 0
        for s in SIDES:
            st[s] = (k, k + a.prime.num.basis_onside[s])
            k = st[s][1]
        for e in m.elements:
            Ne, Te, De, be = A_(N[e]), A_(T[e]), A_(D[e]), np.asarray(b[e].toarray()).ravel()
            x = o.cochain.local[e]
            for s in SIDES:
                for i in range(*st[s]):
                    n = R.get('%d%s' % (e, s))
                    col = int(np.nonzero(Ne[i])[0][0])
                    unit = lambda j, N_: np.eye(N_)[j]
                    if n is None:
                        ctx.equal(Te[i], Ne[i], 1e-12, 'inner row: traces')
                        ctx.equal(De[i], 0 * De[i], 1e-12, 'inner row: no diagonal')
                        ctx.equal(be[i], 0, 1e-12, 'inner row: right-hand side')
                    elif n in dirichlet:
                        ctx.equal(Te[i], 0 * Ne[i], 1e-12, 'Dirichlet row: no trace')
                        ctx.equal(De[i], unit(i, len(De)), 1e-12, 'Dirichlet row: identity')
                        ctx.equal(be[i], at.cochain.local[e][i], 1e-8, 'Dirichlet row: value')
                    else:
                        ctx.equal(Te[i], unit(col, len(Ne[i])), 1e-12, 'Neumann row: identity')
                        ctx.equal(De[i], 0 * De[i], 1e-12, 'Neumann row: no diagonal')
                        ctx.equal(be[i], x[col], 1e-8, 'Neumann row: value')


HARNESSES = [
    S_('dual forms', *[K(dual, '%d-adf' % k, FLAT, (1, 2, 1)) for k in range(4)]),
    S_('dual forms curved', *[K(dual, '%d-adf' % k, dict(CURVED, layout=(2, 1, 1)), (1, 2, 1)) for k in range(4)]),
    S_('dual traces', *[K(dual, '%d-adt' % k, FLAT, (1, 2, 1)) for k in range(3)],
       *[K(dual, '%d-adt' % k, dict(CURVED, layout=(2, 1, 1)), (1, 2, 1)) for k in range(3)]),
    S_('global vectors', *[K(spread, i, dict(FLAT, layout=([1, 2], [1], [1])), (1, 1, 2)) for i in ('0-adf', '1-adf', '2-adf', '3-adf', '0-adt', '1-adt', '2-adt')]),
    S_('by parts div', K(by_parts, 0, FLAT, (2, 2, 2), 1)),
    S_('by parts curl', K(by_parts, 1, FLAT, (2, 2, 2), 1)),
    S_('by parts grad', K(by_parts, 2, FLAT, (2, 2, 2), 1)),
    S_('by parts own', K(by_parts, 2, FLAT, (3, 2, 1), 0), K(by_parts, 1, dict(FLAT, pick=[0, 3]), (2, 3, 2), 1)),
    S_('discrete', *[K(discrete, k, dict(CURVED, pick=[0, 3]), (1, 2, 1)) for k in range(3)]),
    S_('discrete regions', *[K(discrete, k, dict(ID='bridge_arch_cracked', layout=(1, 1, 1), pick=[1, 2]), (1, 1, 1)) for k in range(3)]),
    S_('trace mass', *[K(trace_mass, k, dict(FLAT, pick=[0, 3]), (2, 1, 2)) for k in range(3)],
       *[K(trace_mass, k, dict(CURVED, pick=[1]), (2, 2, 2), 3e-3, 12) for k in range(3)]),
    S_('pairing', K(pairing, FLAT, (1, 1, 1), ('North', 'East')), K(pairing, FLAT, (1, 1, 2), ('Back',), 0.5)),
]
