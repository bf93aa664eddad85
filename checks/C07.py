"""C07: mass matrices, inner products, wedge products, trilinear operators and boundary integrals are the integrals they
stand for.

The operators are built by the real code; the coefficients of the forms are symbolic.  The reference is the integral by
an independent Gauss rule (numpy) of the fields that the real reconstruction returns (whose correctness is C03's
matter), with the Jacobian determinant of the mapping (C06's matter)."""
import numpy as np
from engine.harness import H
from . import common as C, oracle as O

BOUNDS = ('degrees p <= 3 per direction (also different per direction, also different for the two forms); trilinear: '
          'p <= 2; up to 3 checked elements of meshes with unequal and curved elements; all real coefficients of the forms.')
ASSUMPTIONS = ['curved elements: operators with explicit high quadrature degree; compared to 1e-6']


def gauss(*q):
    P, W = zip(*[np.polynomial.legendre.leggauss(k) for k in q])
    w = W[0]
    for v in W[1:]:
        w = np.multiply.outer(w, v)
    return list(P), w.ravel('F')


def jac(mesh, i, ax):
    pts = O.grid(*ax)
    return np.abs(O.det(O._jac(mesh.elements[i], pts)))


def rec(f, ax):
    return {i: list(v) for i, v in f.reconstruct(*ax, ravel=True)[1].items()}


def basis_values(f, ax):
    """{element: [component][dof, point]} by reconstructing the unit coefficient vectors."""
    n = f.num.basis
    keep = f.cochain.local
    out = {}
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.
        f.cochain.local = {i: e for i in f.mesh.elements}
        for i, v in rec(f, ax).items():
            out.setdefault(i, []).append([np.asarray(c, float) for c in v])
    if keep is not None:
        f.cochain.local = keep
    else:
        f.cochain._local_ = None
    return {i: [np.array([b[c] for b in B]) for c in range(len(B[0]))] for i, B in out.items()}


def cells(mesh, limit=3):
    """a few elements, always including the first and last."""
    I = list(mesh.elements.indices) if hasattr(mesh.elements, 'indices') else list(mesh.elements)
    if len(I) <= limit:
        return I
    return sorted({I[0], I[-1], *[I[(len(I) * k) // limit] for k in range(1, limit)]})


def build(dim, mesh, p, kind='Lobatto'):
    if dim == 3:
        m = C.mesh3(*mesh[0], **mesh[1]) if isinstance(mesh[1], dict) else C.mesh3(*mesh)
        return m, C.fc3(m, C.space3(p, kind))
    m = C.mesh2(*mesh[0], **mesh[1]) if isinstance(mesh[1], dict) else C.mesh2(*mesh)
    return m, C.fc2(m, C.space2(p, kind))


def form(fc, ID):
    return fc(ID) if ID[0] == '2' and ID.endswith(('-i', '-o')) else fc(ID, hybrid=False)


def check_matrix(ctx, label, M, a, B, w, i, fa, tol):
    """M @ a == integral of (field of a) . (basis B): a symbolic."""
    A = fa[i]
    ref = 0
    for c in range(len(A)):
        ref = ref + (B[i][c] * w) @ np.asarray(A[c])
    got = np.asarray(M.toarray() if hasattr(M, 'toarray') else M) @ a
    ctx.equal(got, ref, tol, label)


def inner(ctx, dim, mesh, p, ID, kind='Lobatto', p2=None, q=None, quad=None, tol=1e-9, quad_type=None):
    """(self, other) for forms of the same kind in spaces p and p2."""
    if dim == 'tri':
        f = C.tri(mesh, p)
        m = None
        with ctx.symbolic_code():
            s, o = f(ID), f(ID)
        m = s.mesh
        # 2-forms have a 1/(distance to the singular vertex) density: the integral is the one of the default rule
        q = (p + 2 if ID[0] == '2' else q or 2 * p + 2,) * 2
    else:
        m, fc = build(dim, mesh, p, kind)
        s = form(fc, ID)
        if p2 is None:
            o = s
        else:
            o = form(build(dim, mesh, p2, kind)[1].__class__(m, (C.space3 if dim == 3 else C.space2)(p2, kind)), ID)
        q = (q,) * dim if q else tuple(max(a, b) + 2 for a, b in zip(p, p2 or p))
    ax, w = gauss(*q)
    with ctx.symbolic_code():
        Ms = {}
        if p2 is None and quad is None:
            Ms['mass'] = s.matrices.mass
        if dim == 'tri' or (quad is None and quad_type is None):
            Ms['inner'] = s.operators.inner(o)
        else:
            kw = {} if quad_type is None else {'quad_type': quad_type}
            Ms['inner'] = s.operators.inner(o, quad_degree=quad, **kw)
        I = cells(m)
        a = {i: ctx.reals('a%d_' % i, s.num.basis) for i in I}
        z = {i: np.zeros(s.num.basis) for i in m.elements}
        s.cochain.local = {**z, **a}
        fa = rec(s, ax)
    B = basis_values(o, ax)
    s.cochain.local = {**z, **a}
    for i in I:
        wi = w * jac(m, i, ax)
        for nm, M in Ms.items():
            check_matrix(ctx, '%s of %s in element %d' % (nm, ID, i), M[i], a[i], B, wi, i, fa, tol)
        if 'mass' in Ms:
            D = np.asarray(Ms['mass'][i].toarray(), float)
            ctx.equal(D @ a[i], D.T @ a[i], 1e-10, 'mass matrix symmetric')
            Di = np.asarray(Ms['mass'].inv[i].toarray(), float)
            ctx.equal(Di @ (D @ a[i]), a[i], 1e-8, 'inverse mass matrix')


def wedge(ctx, dim, mesh, p, A, B, p2=None, kind='Lobatto'):
    m, fc = build(dim, mesh, p, kind)
    s = form(fc, A)
    o = form(build(dim, mesh, p2 or p, kind)[1].__class__(m, (C.space3 if dim == 3 else C.space2)(p2 or p, kind)), B)
    ax, w = gauss(*[max(a, b) + 2 for a, b in zip(p, p2 or p)])
    I = cells(m)
    with ctx.symbolic_code():
        W = s.operators.wedge(o)
        a = {i: ctx.reals('a%d_' % i, s.num.basis) for i in I}
        s.cochain.local = {**{i: np.zeros(s.num.basis) for i in m.elements}, **a}
        fa = rec(s, ax)
    Bv = basis_values(o, ax)
    for i in I:
        check_matrix(ctx, 'wedge of %s with %s in element %d' % (A, B, i), W[i], a[i], Bv, w * jac(m, i, ax), i, fa,
                     1e-9)


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


# trilinear operators: name -> (dim, form of w, of u, of e, call, which argument's cochain is used)
TRI = {
    '1x1.1': (3, '1-f', '1-f', '1-f', lambda w, u, e, **k: w.special.cross_product_1f__ip_1f(u, e, **k),
              ('2-M-1', '2-M-0')),
    '1x2.2': (3, '1-f', '2-f', '2-f', lambda w, u, e, **k: w.special.cross_product_2f__ip_2f(u, e, **k),
              ('2-M-1', '2-M-0', 'MDM')),
    '2x2.2': (3, '2-f', '2-f', '2-f', lambda w, u, e, **k: w.special.cross_product_2f__ip_2f(u, e, **k),
              ('2-M-1', '2-M-0', 'MDM')),
    '2x2.1': (3, '2-f', '2-f', '1-f', lambda w, u, e, **k: w.special.cross_product_2f__ip_1f(u, e, **k),
              ('2-M-1', 'MDM')),
    '2x1.2': (3, '2-f', '1-f', '2-f', lambda w, u, e, **k: w.special.cross_product_1f__ip_2f(u, e, **k),
              ('2-M-1', '2-M-0', 'MDM')),
    'o0x1.1': (2, '0-f-o', '1-f-o', '1-f-o', lambda w, u, e, **k: w.special.cross_product_1f__ip_1f(u, e, **k),
               ('2-M-1', '2-M-0', 'MDM')),
    'i0x1.1': (2, '0-f-i', '1-f-i', '1-f-i', lambda w, u, e, **k: w.special.cross_product_1f__ip_1f(u, e, **k),
               ('2-M-1',)),
    'i2x1.1': (2, '2-f-i', '1-f-i', '1-f-i', lambda w, u, e, **k: w.special.cross_product_1f__ip_1f(u, e, **k),
               ('2-M-1',)),
    'to0x1.1': ('tri', '0-f-o', '1-f-o', '1-f-o', lambda w, u, e, **k: w.do.cross_inner(u, e, **k), ('2-M-1', '2-M-0', 'MDM')),
    'ti0x1.1': ('tri', '0-f-i', '1-f-i', '1-f-i', lambda w, u, e, **k: w.do.cross_inner(u, e, **k), ('2-M-1', '2-M-0', 'MDM')),
}


def trilinear(ctx, op, mesh, p, quad=None, q=None, tol=1e-9, again=False, kind='Lobatto'):
    dim, W, U, E, call, outputs = TRI[op]
    if dim == 'tri':
        fc = C.tri(mesh, p)
    else:
        m, fc = build(dim, mesh, p, kind)
    if again:       # an unrelated use of the same operator before
        m0, fc0 = build(dim, (mesh[0], tuple(1 for _ in range(dim))), p, kind)
        call(form(fc0, W), form(fc0, U), form(fc0, E), output=outputs[-1])
        del m0, fc0
    if dim == 'tri':
        with ctx.symbolic_code():
            w, u, e = fc(W), fc(U), fc(E)
        m, dim = w.mesh, 2
        ax, qw = gauss(2 * p + 1, 2 * p + 1)      # the rule of the operator: the reconstruction has a density at the singular vertex
    else:
        w, u, e = form(fc, W), form(fc, U), form(fc, E)
        ax, qw = gauss(*((q,) * dim if q else [2 * k + 2 for k in p]))
    I = cells(m, 2)
    Bw, Bu, Be = basis_values(w, ax), basis_values(u, ax), basis_values(e, ax)
    aw = {i: ctx.reals('w%d_' % i, w.num.basis) if i in I else np.zeros(w.num.basis) for i in m.elements}
    au = {i: ctx.reals('u%d_' % i, u.num.basis) if i in I else np.zeros(u.num.basis) for i in m.elements}
    with ctx.symbolic_code():
        res = {}
        w.cochain.local, u.cochain.local = aw, au
        for out in outputs:
            res[out] = call(w, u, e, output=out, **({} if quad is None else {'quad_degree': quad}))
    for i in I:
        wi = qw * jac(m, i, ax)
        bw, bu, be = Bw[i], Bu[i], Be[i]
        if dim == 2:
            T = - np.einsum('iq,jq,kq,q->ijk', bw[0], bu[1], be[0], wi, optimize=True) \
                + np.einsum('iq,jq,kq,q->ijk', bw[0], bu[0], be[1], wi, optimize=True)
        else:
            T = 0
            for c in range(3):
                d, f = (c + 1) % 3, (c + 2) % 3
                T = T + np.einsum('iq,jq,kq,q->ijk', bw[d], bu[f], be[c], wi, optimize=True) \
                    - np.einsum('iq,jq,kq,q->ijk', bw[f], bu[d], be[c], wi, optimize=True)
        for out in outputs:
            if out == '2-M-1':
                with ctx.symbolic_code():
                    got = res[out][i].toarray()
                ref = np.tensordot(T, aw[i], axes=(0, 0)).T
            elif out == '2-M-0':
                with ctx.symbolic_code():
                    got = res[out][i].toarray()
                ref = np.tensordot(T, au[i], axes=(1, 0)).T
            else:
                got, ref = np.asarray(res[out][i]), T
                got, ref = np.tensordot(got, aw[i], axes=(0, 0)), np.tensordot(ref, aw[i], axes=(0, 0))
            ctx.equal(got, ref, tol, '%s, output %s, element %d' % (op, out, i))


def curl_self(ctx, mesh, p, quad=None, q=None, tol=1e-9):
    """< curl(u) x u, e >."""
    m, fc = build(3, mesh, p)
    u, e = form(fc, '1-f'), form(fc, '2-f')
    ax, qw = gauss(*((q,) * 3 if q else [2 * k + 2 for k in p]))
    I = cells(m, 2)
    Be = basis_values(e, ax)
    au = {i: ctx.reals('u%d_' % i, u.num.basis) if i in I else np.zeros(u.num.basis) for i in m.elements}
    with ctx.symbolic_code():
        u.cochain.local = au
        V = u.special.curl_self_cross_product_self__ip_2f(e, **({} if quad is None else {'quad_degree': quad}))
        fu = rec(u, ax)
        fw = rec(u.coboundary(), ax)
        got = {i: np.asarray(V[i].toarray()).ravel() for i in I}
    for i in I:
        wi = qw * jac(m, i, ax)
        x = cross(fw[i], fu[i])
        ref = sum((Be[i][c] * wi) @ np.asarray(x[c]) for c in range(3))
        ctx.equal(got[i], ref, tol, 'curl(u) x u against 2-forms, element %d' % i)


def inner_curl(ctx, mesh, p, again=False):
    """(curl(u x B), b): u x B projected on the 1-forms of degree p_u + p_B (contains it), then curl."""
    m, fc = build(3, mesh, p)
    u, B, b = form(fc, '2-f'), form(fc, '2-f'), form(fc, '2-f')
    P = [2 * k for k in p]
    fine = C.fc3(m, C.space3(P))
    j = fine('1-f', hybrid=False)
    ax, qw = gauss(*[2 * k + 3 for k in p])
    I = cells(m, 1)[:1]
    au = {i: ctx.reals('u%d_' % i, u.num.basis) if i in I else np.zeros(u.num.basis) for i in m.elements}
    with ctx.symbolic_code():
        u.cochain.local = au
        R = u.special.inner_curl__cross_product_2f(B, b, output='2-M-1')
        got = {i: R[i].toarray() for i in I}
    Bu, BB, Bb, Bj = (basis_values(f, ax) for f in (u, B, b, j))
    for i in I:
        wi = qw * jac(m, i, ax)
        # projection of u x B (for all basis pairs) onto j
        T = 0
        for c in range(3):
            d, f = (c + 1) % 3, (c + 2) % 3
            T = T + np.einsum('iq,jq,kq,q->ijk', Bu[i][d], BB[i][f], Bj[i][c], wi, optimize=True) \
                - np.einsum('iq,jq,kq,q->ijk', Bu[i][f], BB[i][d], Bj[i][c], wi, optimize=True)
        Mj = sum(np.einsum('iq,jq,q->ij', Bj[i][c], Bj[i][c], wi, optimize=True) for c in range(3))
        coef = np.einsum('kl,ijl->ijk', np.linalg.inv(Mj), T)
        # curl of the basis functions of j
        n = j.num.basis
        D = []
        for k in range(n):
            e = np.zeros(n)
            e[k] = 1.
            j.cochain.local = {s: e for s in m.elements}
            D.append([np.asarray(v, float) for v in rec(j.coboundary(), ax)[i]])
        D = [np.array([v[c] for v in D]) for c in range(3)]
        K = sum(np.einsum('kq,bq,q->kb', D[c], Bb[i][c], wi, optimize=True) for c in range(3))
        full = np.einsum('ijk,kb->ijb', coef, K)
        ref = np.tensordot(full, au[i], axes=(0, 0)).T
        ctx.equal(got[i], ref, 1e-8, '(curl(u x B), b), element %d' % i)


SIDES3 = {'North': (0, -1.), 'South': (0, 1.), 'West': (1, -1.), 'East': (1, 1.), 'Back': (2, -1.), 'Front': (2, 1.)}
SIDES2 = {'Upper': (0, -1.), 'Down': (0, 1.), 'Left': (1, -1.), 'Right': (1, 1.)}


def boundary(ctx, dim, mesh, p, deg=2):
    """integral over the domain boundary of basis functions times a boundary-wise field (symbolic polynomials)."""
    m, fc = build(dim, mesh, p)
    S = SIDES3 if dim == 3 else SIDES2
    comps = 3 if dim == 3 else 1
    P = {b: [C.poly(ctx, '%s%d_' % (b[0], c), deg, dim) for c in range(comps)] for b in S}
    f = form(fc, '1-f' if dim == 3 else '0-f-o')
    with ctx.symbolic_code():
        if dim == 3:
            V = fc('vector', {b: [q.func() for q in P[b]] for b in S}, name='V')
        else:
            V = fc('scalar', {b: P[b][0].func() for b in S}, name='V')
        V.current_time = 0.
        q = [k + 2 for k in p]      # the code gets enough points to be exact
        b = f.do.boundary_integrate(V, quad_degree=[k + deg + 1 for k in p])
        got = {i: np.asarray(b[i].toarray()).ravel() for i in m.elements}
    for i in m.elements:
        ref = np.zeros(f.num.basis)
        el = m.elements[i]
        for j, pos in enumerate(el.position):
            if not isinstance(pos, str):
                continue
            d, s = list(S.values())[j]
            ax, w = [], []
            for k in range(dim):
                if k == d:
                    ax.append(np.array([s]))
                    w.append(np.ones(1))
                else:
                    X, Y = np.polynomial.legendre.leggauss(p[k] + deg + 2)
                    ax.append(X)
                    w.append(Y)
            W = w[0]
            for y in w[1:]:
                W = np.multiply.outer(W, y)
            W = W.ravel('F')
            pts = O.grid(*ax)
            xyz = el.coordinate_transformation.mapping(*pts)
            J = O._jac(el, pts)
            cols = [[J[r][k] for r in range(dim)] for k in range(dim) if k != d]
            area = np.sqrt(sum(x ** 2 for x in (O._cross(*cols) if dim == 3 else cols[0])))
            B = basis_values(f, ax)[i]
            for c in range(comps):
                v = P[pos][c](0., *xyz)
                ref = ref + (B[c] * W * area) @ np.broadcast_to(np.asarray(v), W.shape)
        ctx.equal(got[i], ref, 1e-9, 'boundary integral in element %d' % i)


N3 = ('crazy', ([1, 3], [2, 1], [1, 2]))
HARNESSES = []
# --- 3D
for ID, p in (('0-f', (2, 1, 1)), ('1-f', (1, 2, 1)), ('2-f', (1, 1, 2)), ('3-f', (2, 2, 1))):
    HARNESSES += [
        H('3d orth %s' % ID, inner, dim=3, mesh=(N3, {'bounds': ((0, 2), (-1, 0.5), (0, 3))}), p=p, ID=ID),
        H('3d orth free nodes %s' % ID, inner, dim=3, mesh=(('crazy', (1, 1, 1)), {}), p=p, ID=ID, kind='free'),
        H('3d curved %s' % ID, inner, dim=3, mesh=(('crazy', (2, 1, 1)), {'c': 0.1}), p=p, ID=ID, quad=(13, 13, 13),
          q=14, tol=1e-6),
        H('3d two spaces %s' % ID, inner, dim=3, mesh=(('crazy', ([1, 2], 1, 1)), {'bounds': ((0, 2), (-1, 0.5), (0, 3))}),
          p=p, p2=(1, 2, 2), ID=ID),
        H('3d lobatto %s' % ID, inner, dim=3, mesh=(('crazy', ([1, 2], 1, 1)), {}), p=p, ID=ID, quad=(4, 3, 4),
          quad_type='Lobatto'),
        H('3d curved two spaces %s' % ID, inner, tier='thorough', dim=3, mesh=(('crazy', (2, 1, 1)), {'c': 0.1}), p=p,
          p2=(2, 1, 2), ID=ID, quad=(13, 13, 13), q=14, tol=1e-6),
        H('3d arch %s' % ID, inner, tier='thorough', dim=3, mesh=(('bridge_arch_cracked', (1, 1, 1)), {}), p=p, ID=ID,
          quad=(13, 13, 13), q=14, tol=1e-6),
        H('3d p3 %s' % ID, inner, tier='thorough', dim=3, mesh=(N3, {}), p=(3, 2, 3), ID=ID),
    ]
HARNESSES += [
    H('3d wedge 1 2', wedge, dim=3, mesh=(N3, {'c': 0.05}), p=(2, 1, 1), A='1-f', B='2-f'),
    H('3d wedge 1 2 two spaces', wedge, dim=3, mesh=(N3, {}), p=(1, 2, 1), p2=(2, 1, 2), A='1-f', B='2-f'),
    H('3d wedge 3 0', wedge, dim=3, mesh=(('crazy', (2, 1, 1)), {}), p=(2, 1, 1), A='3-f', B='0-f'),
]
# --- 2D
for ID in ('0-f-i', '1-f-i', '2-f-i', '0-f-o', '1-f-o', '2-f-o'):
    HARNESSES += [
        H('2d orth %s' % ID, inner, dim=2, mesh=(('crazy', ([1, 3], [2, 1])), {'bounds': ((0, 2), (-1, 0.5))}), p=(2, 3),
          ID=ID),
        H('2d parallelogram %s' % ID, inner, dim=2, mesh=(('quadrangle', ([1, 2], 1)),
                                                           {'p_UL': (0, 0), 'p_DL': (2, 0.5), 'p_UR': (0.3, 1),
                                                            'p_DR': (2.3, 1.5)}), p=(2, 2), ID=ID),
        H('2d curved %s' % ID, inner, dim=2, mesh=(('crazy', (2, 1)), {'c': 0.15}), p=(2, 1), ID=ID, quad=(24, 24), q=24,
          tol=1e-6),
        H('2d mixed %s' % ID, inner, dim=2, mesh=(('chp1', (1, 1)), {}), p=(1, 2), ID=ID, quad=(24, 24), q=24, tol=1e-6),
        H('2d two spaces %s' % ID, inner, dim=2, mesh=(('crazy', ([1, 3], [2, 1])), {}), p=(2, 1), p2=(1, 3), ID=ID),
        H('2d p4 %s' % ID, inner, tier='thorough', dim=2, mesh=(('crazy', ([1, 3], [2, 1])), {}), p=(4, 3), ID=ID,
          kind='free'),
    ]
HARNESSES += [
    H('2d wedge 0i 2o', wedge, dim=2, mesh=(('crazy', ([1, 2], 1)), {'c': 0.1}), p=(2, 1), A='0-f-i', B='2-f-o'),
    H('2d wedge 2i 0o', wedge, dim=2, mesh=(('crazy', ([1, 2], 1)), {'c': 0.1}), p=(2, 1), A='2-f-i', B='0-f-o'),
    H('2d wedge 1i 1o', wedge, dim=2, mesh=(('crazy', ([1, 2], 1)), {'c': 0.1}), p=(2, 1), A='1-f-i', B='1-f-o'),
    H('2d wedge 1o 1i', wedge, dim=2, mesh=(('crazy', ([1, 2], 1)), {'c': 0.1}), p=(1, 2), p2=(2, 1), A='1-f-o',
      B='1-f-i'),
]
# --- triangles
for ID in ('0-f-i', '1-f-i', '2-f-i', '0-f-o', '1-f-o', '2-f-o'):
    HARNESSES += [H('tri %s' % ID, inner, dim='tri', mesh='rand0', p=2, ID=ID, tol=1e-8),
                  H('tri test2 %s' % ID, inner, tier='thorough', dim='tri', mesh='test2', p=3, ID=ID, tol=1e-8)]
# --- trilinear
for op in TRI:
    d = TRI[op][0]
    if d == 'tri':
        HARNESSES += [H('trilinear %s' % op, trilinear, op=op, p=2, mesh='rand0', tol=1e-8),
                      H('trilinear %s p1' % op, trilinear, op=op, p=1, mesh='square', tol=1e-8),
                      H('trilinear %s p3' % op, trilinear, tier='thorough', op=op, p=3, mesh='test2', tol=1e-8)]
        continue
    p = (2, 1, 1) if d == 3 else (2, 3)
    HARNESSES += [
        H('trilinear %s orth' % op, trilinear, op=op, p=p,
          mesh=(('crazy', ([1, 2], 1, 1) if d == 3 else ([1, 2], [2, 1])), {})),
        H('trilinear %s curved' % op, trilinear, op=op, p=(1, 1, 1) if d == 3 else (2, 1),
          quad=[11, 12, 13][:d] if d == 3 else [22, 23],
          q=14 if d == 3 else 24, tol=2e-5,
          mesh=(('crazy', (1, 1, 1)[:d]), {'c': 0.08})),
        H('trilinear %s curved p' % op, trilinear, tier='thorough', op=op, p=p,
          quad=[11, 12, 13][:d] if d == 3 else [22, 23],
          q=14 if d == 3 else 24, tol=2e-5,
          mesh=(('crazy', (1, 2, 1)[:d]), {'c': 0.08})),
        H('trilinear %s free' % op, trilinear, tier='thorough', op=op, p=(1, 2, 1)[:d],
          mesh=(('crazy', ([1, 2], 1, 1)[:d]), {}), kind='free'),
    ]
HARNESSES += [
    H('curl self orth', curl_self, mesh=(('crazy', ([1, 2], 1, 1)), {}), p=(2, 1, 1)),
    H('curl self curved', curl_self, mesh=(('crazy', (1, 2, 1)), {'c': 0.08}), p=(1, 1, 1), quad=[11, 12, 13], q=14,
      tol=2e-5),
    H('inner curl', inner_curl, mesh=(('crazy', ([1, 2], 1, 1)), {}), p=(1, 1, 1)),
    H('inner curl 2', inner_curl, tier='thorough', mesh=(('crazy', ([1, 2], 1, 1)), {}), p=(2, 1, 1)),
    H('boundary 3d', boundary, dim=3, mesh=(('crazy', ([1, 2], 1, 2)), {'bounds': ((0, 2), (-1, 0.5), (1, 3))}),
      p=(2, 1, 1)),
    H('boundary 2d', boundary, dim=2, mesh=(('crazy', ([1, 2], 2)), {'bounds': ((0, 2), (-1, 0.5))}), p=(2, 1)),
]
