"""C16: traces and restrictions pick the right degrees of freedom with the right sign."""
import numpy as np
from . import common as C, oracle as O
from checks.common import poly
from checks.C07 import gauss
from checks.C13 import S_, C as K

BOUNDS = ('degrees 1-3 (different per direction), meshes of 1-8 elements (orthogonal unequal, periodic, curved, several regions); all cochains and '
          'all polynomial fields of the degree of the space; both hybrid settings where they exist')
ASSUMPTIONS = ['reconstruction of forms in the elements (C03), reduction (C02) and the mapping (C06) are decided by their own checks',
               'mass matrices on curved sides: p=3, compared to 1e-4 of the exact integral (they are numerical quadratures)']

SIDES = 'NSWEBF'
SIGN = dict(N=-1, S=1, W=-1, E=1, B=-1, F=1)
NORMAL = dict(N=0, S=0, W=1, E=1, B=2, F=2)
END = dict(N=-1., S=1., W=-1., E=1., B=-1., F=1.)
CURVED = dict(ID='crazy', layout=(2, 1, 2), c=0.07)
FLAT = dict(ID='crazy', layout=([1, 2], [1], [2, 1]), c=0., bounds=([0, 2], [-1, 1], [0, 3]))


def make(mesh, p, kind='Lobatto'):
    m = C.mesh3(mesh['ID'], mesh['layout'], **{k: v for k, v in mesh.items() if k not in ('ID', 'layout', 'pick')})
    return m, C.fc3(m, C.space3(p, kind))


def own_axes(p, n=0):
    """points that are no nodes, a different number per direction"""
    return [np.linspace(-0.83, 0.91, q + 1 + n + j % 2) for j, q in enumerate(p)]


def on_side(ax, s):
    ax = [np.asarray(a, float) for a in ax]
    ax[NORMAL[s]] = np.array([END[s]])
    return ax


def side_geometry(m, e, s, ax):
    """coordinates, tangent vectors and positive normal (area weighted) at the points of a side"""
    pts = O.grid(*on_side(ax, s))
    el = m.elements[e]
    X = [np.asarray(x, float) for x in el.coordinate_transformation.mapping(*pts)]
    J = O._jac(el, pts)
    d = NORMAL[s]
    a, b = [[J[i][k] for i in range(3)] for k in ((d + 1) % 3, (d + 2) % 3)]
    n = O._cross(a, b)
    return X, n, np.sqrt(sum(np.asarray(k, float) ** 2 for k in n))


def restricted(k, v, n, area):
    """what the trace of a k-form is, for values v of the form at points with area-weighted normal n"""
    if k == 0:
        return [v[0]]
    dot = sum(a * b for a, b in zip(v, n)) / area
    if k == 2:
        return [dot]
    return [a - dot * b / area for a, b in zip(v, n)]


def table(f):
    """{element: {side: (start, stop)}} of hybrid trace dofs"""
    o, r = 0, {}
    for s in SIDES:
        r[s] = (o, o + f.num.basis_onside[s])
        o = r[s][1]
    return r


def A_(M):
    return np.asarray(M.toarray() if hasattr(M, 'toarray') else M)


def els_(m, mesh):
    I = list(m.elements.indices)
    return [I[i] for i in mesh['pick']] if 'pick' in mesh else I


# ----------------------------------------------------------------------------------------------------------- harnesses
def restrict(ctx, k, mesh, p, kind='Lobatto', tol=1e-9, ravel=False):
    """S, N and the reconstruction of the trace of an arbitrary conforming discrete form"""
    m, fc = make(mesh, p, kind)
    f, t = fc('%d-f' % k, hybrid=False), fc('%d-t' % k, hybrid=True)
    ax = own_axes(p)
    C.global_cochain(ctx, f, 'c')
    with ctx.symbolic_code():
        S, N, F = t.matrices.selective, t.matrices.trace, f.matrices.trace
        S_, N_, F_ = [{e: X[e] for e in m.elements} for X in (S, N, F)]
        w = {e: S_[e] @ f.cochain.local[e] for e in m.elements}
        t.cochain.local = w
        X, V = t.reconstruct(*ax, ravel=ravel)
        fv = {s: f.reconstruct(*on_side(ax, s), ravel=True)[1] for s in SIDES}
    sg = np.concatenate([SIGN[s] * np.ones(t.num.basis_onside[s]) for s in SIDES])
    for e in m.elements:
        ctx.claim(np.array_equal(A_(N_[e]), A_(S_[e]) * sg[:, None]), 'the trace matrix is the selective matrix with a minus on N, W and B')
        ctx.claim(np.array_equal(A_(N_[e]), A_(F_[e])), 'form.matrices.trace is the trace matrix of its trace form')
    if k == 2:
        E = f.matrices.incidence
        for e in m.elements:
            c = f.cochain.local[e]
            ctx.equal(np.sum(A_(N_[e]) @ c), np.sum(A_(E[e]) @ c), tol, 'the outward trace sums up to the total divergence')
    T = m.trace.elements.map
    for e in els_(m, mesh):
        for s, te in zip(SIDES, T[e]):
            x, n, area = side_geometry(m, e, s, ax)
            want = restricted(k, [np.asarray(c).ravel('F') for c in fv[s][e]], n, area)
            got = [np.asarray(c) for c in V[te]]
            shape = tuple(len(a) for j, a in enumerate(ax) if j != NORMAL[s])
            ctx.claim(got[0].shape == ((shape[0] * shape[1],) if ravel else shape), 'shape of the reconstruction')
            if 'periodic' not in mesh['ID']:        # there the points depend on the side
                ctx.equal(np.array([np.asarray(a).ravel('F') for a in X[te]]), np.array(x), tol, 'points of the trace element %s' % s)
            for a, b in zip(got, want):
                ctx.equal(a.ravel('F'), b, tol, 'the trace form is the restriction of the form on side %s' % s)


def conforming(ctx, k, mesh, p):
    """jumps: the assembled transposed trace matrix annihilates conforming cochains at inner sides"""
    m, fc = make(mesh, p)
    f, t = fc('%d-f' % k, hybrid=False), fc('%d-t' % k, hybrid=True)
    C.global_cochain(ctx, f, 'c')
    with ctx.symbolic_code():
        N = t.matrices.trace
        w = {e: A_(N[e]) @ f.cochain.local[e] for e in m.elements}
        G = t.numbering.gathering
        tot, cnt = {}, {}
        for e in m.elements:
            for a, g in zip(w[e], G[e].full_vector):
                tot[g] = tot.get(g, 0) + a
                cnt[g] = cnt.get(g, 0) + 1
    got = [tot[g] for g in tot if cnt[g] == 2]
    ctx.claim(len(got) > 0, 'there are inner sides')
    ctx.equal(np.array(got), np.zeros(len(got)), 1e-9, 'the traces from both elements cancel at inner sides')


def field_of(ctx, fc, kind, p, name='u', deg=None):
    deg = min(p) if deg is None else deg
    if kind == 's':
        F = [poly(ctx, name, deg, 3)]
        return F, fc('scalar', F[0].func())
    F = [poly(ctx, name + c, deg, 3) for c in 'xyz']
    return F, fc('vector', tuple(g.func() for g in F))


def reduction(ctx, k, mesh, p, kind='Lobatto', hybrid=True, what=None, quad=None):
    """the cochain of the trace form is the restriction of the reduction of the same field, and reproduces the field"""
    m, fc = make(mesh, p, kind)
    with ctx.symbolic_code():
        F, cf = field_of(ctx, fc, what or ('s' if k == 0 else 'v'), p, deg=min(p) - (k > 0))
        cf.current_time = 0.
        t = fc('%d-t' % k, hybrid=hybrid)
        t.CF = cf
        kw = {} if quad is None else dict(quad_degree=quad)
        t.discretize(**kw)
        ax = own_axes(p)
        X, V = t.reconstruct(*ax, ravel=True)
        if hybrid and what is None:
            f = fc('%d-f' % k, hybrid=False)
            f.CF = cf
            f.discretize(**kw)
            S = t.matrices.selective
            for e in m.elements:
                ctx.equal(np.asarray(S[e] @ f.cochain.local[e]), t.cochain.local[e], 1e-8, 'trace cochain = restriction of the reduction')
        if mesh.get('c'):
            return
        one = list(m.trace.elements)[0]
        Y, W = t.reconstruct(*ax, ravel=True, trace_element_range=one)
        ctx.claim(set(W) == {one}, 'reconstruction in one trace element only')
        ctx.equal(np.array(W[one]), np.array(V[one]), 1e-12, 'reconstruction in one trace element')
        T = m.trace.elements.map
        for e in els_(m, mesh):
            for s, te in zip(SIDES, T[e]):
                x, n, area = side_geometry(m, e, s, ax)
                v = [g(0., *x) for g in F]
                want = restricted(0 if len(F) == 1 else k, v, n, area)
                for a, b in zip(V[te], want):
                    ctx.equal(np.asarray(a).ravel('F'), b, 1e-8, 'the trace form reproduces the restricted field on %s' % s)


def trace_mass(ctx, k, mesh, p, kind='Lobatto', hybrid=True, tol=1e-9, q=None):
    m, fc = make(mesh, p, kind)
    t = fc('%d-t' % k, hybrid=hybrid)
    M = t.matrices.mass_TEW
    q = q or max(p) + 2
    ax = [np.polynomial.legendre.leggauss(q)[0]] * 3
    w1 = np.polynomial.legendre.leggauss(q)[1]
    w = np.multiply.outer(w1, w1).ravel('F')
    T = m.trace.elements.map
    side = {}
    for e in els_(m, mesh):
        for s, te in zip(SIDES, T[e]):
            side.setdefault(te, (e, s))
    a = {te: ctx.reals('a%s_' % te, t.num.basis_onside[m.trace.elements[te].CHARACTERISTIC_side]) for te in side}
    b = {te: ctx.reals('b%s_' % te, t.num.basis_onside[m.trace.elements[te].CHARACTERISTIC_side]) for te in side}
    with ctx.symbolic_code():
        t.cochain._local_TEW_ = a
        Va = t.reconstruct(*ax, ravel=True, trace_element_range=list(side))[1]
        t.cochain._local_TEW_ = b
        Vb = t.reconstruct(*ax, ravel=True, trace_element_range=list(side))[1]
    for te, (e, s) in side.items():
        area = side_geometry(m, e, s, ax)[2]
        Mi = A_(M[te])
        ctx.claim(np.allclose(Mi, Mi.T, atol=1e-12), 'symmetric')
        # linear in each factor: compare the vectors of coefficients of b
        want = sum((np.asarray(x) * np.asarray(y) * area * w).sum() for x, y in zip(Va[te], Vb[te]))
        ctx.equal(b[te] @ (Mi @ a[te]), want, tol, 'mass matrix = integral over the trace element (%s)' % s)


def local_trace(ctx, k, mesh, p, hybrid, kind='Lobatto', tol=1e-9, ravel=False, q=None):
    """0-/2-local-trace forms: reduction, reconstruction, masses, reconstruction matrices"""
    m, fc = make(mesh, p, kind)
    flat = not mesh.get('c')
    with ctx.symbolic_code():
        F, cf = field_of(ctx, fc, 's', p, deg=min(p) - (k > 0))
        cf.current_time = 0.
        t = fc('%d-lt' % k, hybrid=hybrid)
        if flat:
            t.CF = cf
            t.discretize()
        else:
            t.cochain.local = {e: ctx.reals('c%d_' % e, t.num.basis) for e in m.elements}
        ax = own_axes(p)
        X, V = t.reconstruct(*ax, ravel=ravel)
        R = t.do.make_reconstruction_matrix_on_grid(*ax)
        R = R[1] if isinstance(R, tuple) else R
        ESW = t.cochain.local_ESW
        M = t.matrices.mass
        q = q or max(p) + 2
        g1, w1 = np.polynomial.legendre.leggauss(q)
        w = np.multiply.outer(w1, w1).ravel('F')
        gx = [g1] * 3
        G = t.reconstruct(*gx, ravel=True)[1]
        B = {e: ctx.reals('b%d_' % e, t.num.basis) for e in els_(m, mesh)}
        keep = t.cochain.local
        t.cochain.local = {e: B.get(e, np.zeros(t.num.basis)) for e in m.elements}
        GB = t.reconstruct(*gx, ravel=True, element_range=list(B))[1]
        LG = t.numbering.local_gathering if not hybrid else None
        for e in B:
            tot = 0
            for s in SIDES:
                x, n, area = side_geometry(m, e, s, ax)
                got = np.asarray(V[e][s][0])
                shape = tuple(len(a) for j, a in enumerate(ax) if j != NORMAL[s])
                ctx.claim(got.shape == ((shape[0] * shape[1],) if ravel else shape), 'shape of the reconstruction')
                ctx.equal(np.array([np.asarray(c).ravel('F') for c in X[e][s]]), np.array(x), tol, 'points of side %s' % s)
                if flat:
                    ctx.equal(got.ravel('F'), F[0](0., *x), 1e-8, 'reconstruction of the reduction on side %s' % s)
                ctx.equal(A_(R[e][s]) @ ESW[e][s], got.ravel('F'), tol, 'reconstruction matrix on side %s' % s)
                if LG is not None:
                    ctx.equal(keep[e][LG[s]], ESW[e][s], tol, 'side-wise cochain')
                A = side_geometry(m, e, s, gx)[2]
                tot = tot + (np.asarray(G[e][s][0]) * np.asarray(GB[e][s][0]) * A * w).sum()
            Mi = A_(M[e])
            ctx.claim(np.allclose(Mi, Mi.T, atol=1e-12), 'symmetric')
            # quadratic in the coefficients: bilinear form
            ctx.equal(B[e] @ (Mi @ keep[e]), tot, 1e-8 if flat else tol, 'mass matrix = integral over the element boundary')


def local_history(ctx, ID, hybrid, p=(1, 1, 1), mesh=dict(ID='crazy', layout=(2, 1, 1), c=0.)):
    """cochain views follow the cochain: local -> side-wise -> local, EWC, globe"""
    m, fc = make(mesh, p)
    t = fc(ID, hybrid=hybrid)
    with ctx.symbolic_code():
        co = t.cochain
        for r in range(2):
            v = C.global_cochain(ctx, t, 'v%d_' % r)
            ew = co.EWC
            G = t.numbering.gathering
            for e in m.elements:
                ctx.equal(np.asarray(ew[e].toarray()).ravel(), v[G[e].full_vector], 1e-12, 'EWC is the present cochain')
            ctx.equal(np.asarray(co.globe.V.toarray()).ravel(), v, 1e-12, 'global cochain')
            L = {e: np.array(co.local[e]) for e in m.elements}
            if ID.endswith('-lt'):
                D = co.local_ESW
                o = fc(ID, hybrid=hybrid)
                o.cochain.local_ESW = D
            elif ID.endswith('-t'):
                D = co.local_TEW
                o = fc(ID, hybrid=hybrid)
                o.cochain.local_TEW = D
            for e in m.elements:
                ctx.equal(o.cochain.local[e], L[e], 1e-12, 'local -> side-wise -> local')
            # keep one EWC, change the cochain
            w = C.global_cochain(ctx, t, 'w%d_' % r)
            for e in m.elements:
                ctx.equal(np.asarray(ew[e].toarray()).ravel(), w[G[e].full_vector], 1e-12, 'EWC follows the cochain')


def refined(ctx, k, hybrid, p=(1, 2, 1)):
    """a p-refined local trace form is the same kind of form in the larger space"""
    m, fc = make(FLAT, p)
    t = fc('%d-lt' % k, hybrid=hybrid)
    with ctx.symbolic_code():
        r = t.do.p_refine((1, 1, 2))
        q = tuple(a + b for a, b in zip(p, (1, 1, 2)))
        w = C.fc3(m, C.space3(q))('%d-lt' % k, hybrid=hybrid)
        ctx.claim(tuple(r.space.p) == q and r.whether.hybrid is hybrid and r.num.basis == w.num.basis and r.orientation == t.orientation,
                  'degree, kind and number of dofs of the refined form')
        C.global_cochain(ctx, w, 'c')
        r.cochain.local = w.cochain.local
        ax = own_axes(p)
        a, b = r.reconstruct(*ax, ravel=True)[1], w.reconstruct(*ax, ravel=True)[1]
        for e in list(m.elements)[:1]:
            for s in SIDES:
                ctx.equal(np.asarray(a[e][s][0]), np.asarray(b[e][s][0]), 1e-12, 'the refined form')


def edges(ctx, k, mesh, p, kind='Lobatto'):
    m, fc = make(mesh, p, kind)
    f, g = fc('%d-f' % k, hybrid=False), fc('%d-e' % k, hybrid=True)
    with ctx.symbolic_code():
        names = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
        if k == 1:      # integrals along the twelve corner edges
            C.set_cochain(ctx, f, 'c')
            S = g.matrices.selective
            gq, w1 = np.polynomial.legendre.leggauss(max(p) + 2)
            for e in els_(m, mesh):
                w, o = np.asarray(S[e] @ f.cochain.local[e]), 0
                for nm in names:
                    d = [j for j in range(3) if j not in [NORMAL[c] for c in nm]][0]
                    nodes = f.space.nodes[d]
                    for i in range(p[d]):
                        h = (nodes[i + 1] - nodes[i]) / 2
                        a = [np.array([0.])] * 3
                        for c in nm:
                            a[NORMAL[c]] = np.array([END[c]])
                        a[d] = gq * h + (nodes[i + 1] + nodes[i]) / 2
                        J = O._jac(m.elements[e], O.grid(*a))
                        v = f.reconstruct(*a, ravel=True)[1][e]
                        ctx.equal(w[o], h * (sum(np.asarray(v[j]) * J[j][d] for j in range(3)) * w1).sum(), 1e-8, 'line integral along ' + nm)
                        o += 1
                ctx.claim(o == len(w), 'all dofs of the edges')
            return
        F, cf = field_of(ctx, fc, 's', p)
        cf.current_time = 0.
        g.CF = cf
        f.CF = cf
        f.discretize()
        S = g.matrices.selective
        g.discretize()
        for e in m.elements:
            ctx.equal(np.asarray(S[e] @ f.cochain.local[e]), g.cochain.local[e], 1e-8, 'edge cochain = restriction of the reduction')
        if k == 0:
            ax = own_axes(p)
            X, V = g.reconstruct(*ax)
            E = m.edge.elements
            for i in E:
                x = [np.asarray(c) for c in X[i]]
                ctx.equal(np.asarray(V[i][0]), F[0](0., *x), 1e-8, 'edge form = restricted field')
            # the points are those of the edge
            for e in els_(m, mesh):
                for nm, i in zip(names, E.map[e]):
                    d = [j for j in range(3) if j not in [NORMAL[c] for c in nm]][0]
                    a = [np.array([0.])] * 3
                    for c in nm:
                        a[NORMAL[c]] = np.array([END[c]])
                    a[d] = ax[d]
                    want = m.elements[e].coordinate_transformation.mapping(*O.grid(*a))
                    ctx.equal(np.array([np.asarray(c).ravel() for c in X[i]]), np.array([np.asarray(c) for c in want]), 1e-9, 'points of edge ' + nm)


def connection(ctx, k, mesh, p):
    """topological connection of a hybrid form, a local trace and a trace form"""
    m, fc = make(mesh, p)
    f, l, t = fc('%d-f' % k, hybrid=True), fc('%d-lt' % k, hybrid=False), fc('%d-t' % k, hybrid=False)
    g = fc('%d-f' % k, hybrid=False)
    C.global_cochain(ctx, g, 'c')
    with ctx.symbolic_code():
        A, B = fc._space_.topological_connection(f, l, t)
        C2, D2 = fc._space_.topological_connection(t, f, l)
        th = fc('%d-t' % k, hybrid=True)
        S = th.matrices.selective
        th.cochain.local = {e: np.asarray(S[e] @ g.cochain.local[e]) for e in m.elements}
        t.cochain.local_TEW = th.cochain.local_TEW
        LG = l.numbering.local_gathering
        for e in m.elements:
            a, b = A_(A[e]), A_(B[e])
            ctx.claim(np.array_equal(a, A_(C2[e])) and np.array_equal(b, A_(D2[e])), 'order of the forms does not matter')
            x = a @ g.cochain.local[e]
            ctx.equal(x, b @ t.cochain.local[e], 1e-12, 'form and trace form agree on the sides')
            ctx.claim(all(np.count_nonzero(r) == 1 for r in a) and all(np.count_nonzero(r) == 1 for r in b), 'one dof per row')
            w = table(th)
            for s in SIDES:
                got = x[LG[s]]
                want = th.cochain.local[e][w[s][0]:w[s][1]]
                for i in range(len(got)):
                    # shared dofs of 0-forms carry the sign of one of their sides
                    if k == 2:
                        ctx.equal(got[i], SIGN[s] * want[i], 1e-12, 'sign and dof on side ' + s)


def element_wise(ctx, mesh, p, kind='Lobatto', lt=True):
    """fields given per trace element (flux, parallel and perpendicular parts of a vector) and what trace forms make of them"""
    m, fc = make(mesh, p, kind)
    flat = not mesh.get('c')
    with ctx.symbolic_code():
        F, cf = field_of(ctx, fc, 'v', p, deg=min(p) - 1)
        g, sf = field_of(ctx, fc, 's', p, 'g', deg=min(p))
        cf.current_time = 0.
        sf.current_time = 0.
        bd = sf.reconstruct(*own_axes(p), ravel=True, i='on_mesh_boundaries', where='trace-element')
        t0 = fc('0-t', hybrid=True)
        t0.CF = cf
        t0.discretize()
        flux = dict(t0.cochain.local_TEW)
        cf.___flux_range___ = 'all'
        fs = cf.flux
        fs.current_time = 0.
        t0.BC.CF = fs
        t0.BC.CF.current_time = 0.
        fBC = t0.discretize(target='BC')[1]
        t1 = fc('1-t', hybrid=True)
        t1.CF = cf
        t1.discretize()
        para = dict(t1.cochain.local_TEW)
        out = {}
        for nm in ('T_para', 'T_perp'):
            V = getattr(cf.components, nm)
            V.current_time = 0.
            t1.CF = V
            t1.CF.current_time = 0.
            t1.discretize()
            out[nm] = dict(t1.cochain.local_TEW)
            R = t1.reconstruct(*own_axes(p), ravel=True)[1]
            out[nm + ' form'] = R
            t1.BC.CF = V
            t1.BC.CF.current_time = 0.
            out[nm + ' BC'] = t1.discretize(target='BC')[1]
        if lt:
            l0 = fc('0-lt', hybrid=True)
            l0.BC.CF = fs
            l0.BC.CF.current_time = 0.
            lBC = l0.discretize(target='BC', update_cochain=False)[1]
    T = m.trace.elements.map
    nodes = [np.asarray(q, float) for q in t0.space.nodes]
    bte = {te for r in m.boundaries.range_of_trace_elements.values() for te in r}
    ctx.claim(set(bd[1]) == bte, 'a scalar field on the boundary covers the boundary')
    for e in els_(m, mesh):
        for s, te in zip(SIDES, T[e]):
            x, n, area = side_geometry(m, e, s, nodes)
            want = sum(f(0., *x) * k / area for f, k in zip(F, n))
            ctx.equal(flux[te], want, 1e-8, 'flux at the nodes of side %s' % s)
            ctx.equal(fBC[te], want, 1e-8, 'flux at the nodes of side %s (BC)' % s)
            if lt:
                if te in bte:
                    ctx.equal(lBC[e][s], want, 1e-8, 'flux at the nodes of side %s (local trace, BC)' % s)
                else:
                    ctx.claim(e not in lBC or s not in lBC[e], 'boundary sides only')
            ctx.equal(out['T_para'][te], para[te], 1e-8, 'parallel part of a vector on side %s' % s)
            for nm in ('T_para', 'T_perp'):
                ctx.equal(out[nm + ' BC'][te], out[nm][te], 1e-10, 'the BC cochain')
            x, n, area = side_geometry(m, e, s, own_axes(p))
            if te in bte:
                ctx.equal(np.array(bd[0][te]), np.array(x), 1e-9, 'points of side %s' % s)
                ctx.equal(bd[1][te][0], g[0](0., *x), 1e-8, 'scalar field on side %s' % s)
            if flat:
                v = [f(0., *x) for f in F]
                n = [k / area for k in n]
                for nm, w in (('T_para', restricted(1, v, n, 1)), ('T_perp', O._cross(v, n))):
                    for a, b in zip(out[nm + ' form'][te], w):
                        ctx.equal(np.asarray(a), b, 1e-8, '%s form on side %s' % (nm, s))


def redo(ctx, mesh, p, lo, hi, kinds):
    """a trace form discretised again (other quadrature, time, field) is as one that never was discretised before"""
    m, fc = make(mesh, p)
    with ctx.symbolic_code():
        for kind in kinds:
            k, sort, target = kind.split()
            fields = []
            for n in 'FG':
                P = [poly(ctx, n + kind.replace(' ', '').replace('-', '') + c, 2, 3) for c in ('xyz' if sort[0] in 'vtb' else 's')]
                for q in P:
                    q.tcoef = 1
                if sort in ('bs', 'bv'):
                    names = ['North', 'East', 'Front']
                    cf = fc('scalar', {b: P[j].func() for j, b in enumerate(names)}) if sort == 'bs' else fc('vector', {b: [P[(j + c) % 3].func() for c in range(3)] for j, b in enumerate(names)})
                else:
                    cf = fc('vector', tuple(q.func() for q in P)) if sort[0] in 'vt' else fc('scalar', P[0].func())
                fields.append(cf)

            def go(f, n, t, q):
                cf = fields[n]
                cf.current_time = t
                if sort in ('ta', 'te'):
                    cf = cf.components.T_para if sort == 'ta' else cf.components.T_perp
                    cf.current_time = t
                kw = dict(quad_degree=q) if q is not None and k != '0-t' else {}
                if target == 'BC':
                    f.BC.CF = cf
                    f.BC.CF.current_time = t
                    r = f.discretize(target='BC', update_cochain=False, **kw)
                else:
                    f.CF = cf
                    f.CF.current_time = t
                    r = f.discretize(**kw)
                if k[2:] == 't':
                    return {e: np.array(v) for e, v in r[1].items()}
                return {e: np.array(v) for e, v in f.cochain.local.items()} if target == 'func' else {(e, s): np.array(v) for e, d in r[1].items() for s, v in d.items()}
            f = fc(k, hybrid=True)
            for h in ((0, 0., lo), (0, 0., hi), (1, 0., hi), (1, .5, lo), (0, .5, None), (1, .5, hi), (1, 0., None), (0, 0., lo)):
                got, want = go(f, *h), go(fc(k, hybrid=True), *h)
                ctx.claim(set(got) == set(want) and len(got) > 0, '%s: the same places' % kind)
                for e in want:
                    ctx.equal(got[e], want[e], 1e-11, '%s: discretised again' % kind)


def project(ctx, k, mesh, p, to='0', kind='Lobatto'):
    m, fc = make(mesh, p, kind)
    f = fc('%d-f' % k, hybrid=False)
    with ctx.symbolic_code():
        C.set_cochain(ctx, f, 'c')
        ax = own_axes(p)
        V = f.reconstruct(*ax, ravel=True)[1]
        if to == '0':
            G = f.projection.to.vector_of_3_standard_0forms()
            W = [g.reconstruct(*ax, ravel=True)[1] for g in G]
            for e in els_(m, mesh):
                for j in range(3):
                    ctx.equal(np.asarray(W[j][e][0]), np.asarray(V[e][j]), 1e-8, 'component %d of the projection' % j)
        else:
            g = f.projection.to.standard_2form()
            W = g.reconstruct(*ax, ravel=True)[1]
            for e in els_(m, mesh):
                for j in range(3):
                    ctx.equal(np.asarray(W[e][j]), np.asarray(V[e][j]), 1e-7, 'component %d of the projection' % j)


def boundary_integration(ctx, p=(1, 1, 1)):
    m, fc = make(FLAT, p)
    with ctx.symbolic_code():
        F, _ = field_of(ctx, fc, 's', (1,))
        names = ('North', 'East', 'Back')
        cf = fc('scalar', {n: F[0].func() for n in m.boundaries.names})
        cf.current_time = 0.
        t = fc('0-lt', hybrid=False)
        t.BC.CF = cf
        t.BC.boundaries = list(names)
        bi = t.BC.interpret.boundary_integration
        got = {e: np.asarray(bi[e].toarray()).ravel() for e in m.elements}
    q = 4
    g1, w1 = np.polynomial.legendre.leggauss(q)
    gx = [g1] * 3
    w = np.multiply.outer(w1, w1).ravel('F')
    on = {pos for n in names for pos in m.boundaries.range_of_element_sides.get(n, [])}
    for e in m.elements:
        b = ctx.reals('b%d_' % e, t.num.basis)
        with ctx.symbolic_code():
            t.cochain.local = {i: b for i in m.elements}
            G = t.reconstruct(*gx, ravel=True, element_range=[e])[1]
        want = 0
        for s in SIDES:
            if '%d%s' % (e, s) in on:
                x, n, A = side_geometry(m, e, s, gx)
                want = want + (F[0](0., *x) * np.asarray(G[e][s][0]) * A * w).sum()
        ctx.equal(b @ got[e], want, 1e-8, 'boundary integral against the basis functions')


# ------------------------------------------------------------------------------------------------------------------ 2D
def make2(mesh, p, kind='Lobatto'):
    m = C.mesh2(mesh['ID'], mesh['layout'], **{k: v for k, v in mesh.items() if k not in ('ID', 'layout', 'pick')})
    return m, C.fc2(m, C.space2(p, kind))


S2 = 'UDLR'
SIGN2, N2, E2 = dict(U=-1, D=1, L=-1, R=1), dict(U=0, D=0, L=1, R=1), dict(U=-1., D=1., L=-1., R=1.)
FLAT2 = dict(ID='crazy', layout=([1, 2], [2, 1, 1]), c=0., bounds=([0, 2], [-1, 2]))
CURVED2 = dict(ID='crazy', layout=(2, 2), c=0.1)


def side2(m, e, s, ax):
    a = list(ax)
    a[N2[s]] = np.array([E2[s]])
    pts = O.grid(*a)
    el = m.elements[e]
    X = [np.asarray(x, float) for x in el.coordinate_transformation.mapping(*pts)]
    J = O._jac(el, pts)
    # positive normal: of the direction of increasing xi (U, D) or eta (L, R)
    n = [J[1][1], -J[0][1]] if N2[s] == 0 else [-J[1][0], J[0][0]]
    return a, X, n, np.sqrt(np.asarray(n[0], float) ** 2 + np.asarray(n[1], float) ** 2)


def planar(ctx, mesh, p, kind='Lobatto', tol=1e-9):
    """the 2-D trace matrix: outward fluxes of an arbitrary (not conforming) 1-form"""
    m, fc = make2(mesh, p, kind)
    f, t = fc('1-f-o', hybrid=True), fc('1-t-o')
    C.set_cochain(ctx, f, 'c')
    with ctx.symbolic_code():
        N = t.matrices.trace
        w = {e: A_(N[e]) @ f.cochain.local[e] for e in m.elements}
        E = f.matrices.incidence
        g1, w1 = gauss(*[max(p) + 2])
        for e in m.elements:
            ctx.equal(np.sum(w[e]), np.sum(A_(E[e]) @ f.cochain.local[e]), tol, 'the outward trace sums up to the total divergence')
            o = 0
            for s in S2:
                n = t.num.basis_onside[s]
                nodes = f.space.nodes[1 - N2[s]]
                for i in range(n):
                    a = (nodes[i + 1] - nodes[i]) / 2
                    ax = [g1[0] * a + (nodes[i + 1] + nodes[i]) / 2] * 2
                    ax, x, nv, ln = side2(m, e, s, ax)
                    v = f.reconstruct(*ax, ravel=True)[1][e]
                    want = SIGN2[s] * a * (sum(np.asarray(c) * d for c, d in zip(v, nv)) * w1).sum()
                    ctx.equal(w[e][o + i], want, tol, 'outward flux through part %d of side %s' % (i, s))
                o += n
            ctx.claim(o == len(w[e]), 'all dofs of the sides')


HARNESSES = [
    S_('restrict 0', K(restrict, 0, FLAT, (1, 2, 1)), K(restrict, 0, dict(CURVED, pick=[0, 3]), (2, 1, 1), 'Gauss' and 'Lobatto', ravel=True)),
    S_('restrict 1', K(restrict, 1, FLAT, (1, 2, 1)), K(restrict, 1, dict(CURVED, pick=[0, 3]), (2, 1, 1), ravel=True)),
    S_('restrict 2', K(restrict, 2, FLAT, (1, 2, 1)), K(restrict, 2, dict(CURVED, pick=[0, 3]), (2, 1, 1), ravel=True)),
    S_('own nodes', *[K(restrict, k, dict(ID='crazy', layout=(1, 2, 1), c=0.05, pick=[1]), (2, 1, 3), 'free', ravel=True) for k in (0, 1, 2)]),
    S_('regions', *[K(restrict, k, dict(ID='bridge_arch_cracked', layout=(1, 1, 1), pick=[1, 2]), (1, 1, 1), ravel=True) for k in (0, 1, 2)],
       *[K(conforming, k, dict(ID='bridge_arch_cracked', layout=(1, 1, 1)), (1, 1, 1)) for k in (0, 1, 2)]),
    S_('periodic', *[K(restrict, k, dict(ID='crazy_periodic', layout=(2, 2, 2), c=0., pick=[0, 5]), (1, 1, 1), ravel=True) for k in (0, 1, 2)],
       *[K(conforming, k, dict(ID='crazy_periodic', layout=(2, 2, 2), c=0.), (1, 1, 1)) for k in (0, 1, 2)]),
    S_('jumps', *[K(conforming, k, FLAT, (1, 2, 1)) for k in (0, 1, 2)]),
    S_('reduction 0', K(reduction, 0, FLAT, (2, 1, 2)), K(reduction, 0, CURVED, (1, 1, 1)), K(reduction, 0, FLAT, (1, 1, 2), hybrid=False)),
    S_('reduction 1', K(reduction, 1, FLAT, (2, 3, 2)), K(reduction, 1, dict(CURVED, layout=(1, 1, 2)), (1, 1, 1))),
    S_('reduction 2', K(reduction, 2, FLAT, (2, 3, 2)), K(reduction, 2, FLAT, (2, 3, 2), what='s'), K(reduction, 2, FLAT, (2, 2, 2), hybrid=False)),
    S_('mass 0', K(trace_mass, 0, FLAT, (2, 1, 2)), K(trace_mass, 0, dict(CURVED, pick=[1]), (3, 3, 3), tol=1e-4, q=12)),
    S_('mass 1', K(trace_mass, 1, FLAT, (2, 1, 2)), K(trace_mass, 1, dict(CURVED, pick=[1]), (2, 2, 2), tol=1e-3, q=12)),
    S_('mass 2', K(trace_mass, 2, FLAT, (2, 1, 2)), K(trace_mass, 2, dict(CURVED, pick=[1]), (3, 3, 3), tol=1e-3, q=12)),
    S_('local trace 0', K(local_trace, 0, FLAT, (2, 1, 1), True), K(local_trace, 0, FLAT, (1, 1, 2), False, ravel=True),
       K(local_trace, 0, dict(CURVED, pick=[2]), (2, 2, 2), False, tol=1e-3, q=10)),
    S_('local trace 2', K(local_trace, 2, FLAT, (2, 2, 2), True), K(local_trace, 2, FLAT, (1, 1, 2), False, ravel=True),
       K(local_trace, 2, dict(CURVED, pick=[2]), (2, 2, 2), True, tol=1e-3, q=10)),
    S_('histories', *[K(local_history, i, h) for i, h in (('0-t', True), ('0-t', False), ('1-t', True), ('2-t', True), ('0-lt', False),
                                                          ('0-lt', True), ('2-lt', True), ('1-lt', True))]),
    S_('edges', K(edges, 0, FLAT, (2, 1, 2)), K(edges, 1, FLAT, (2, 1, 3)), K(edges, 1, dict(CURVED, layout=(1, 1, 2)), (1, 2, 1))),
    S_('element-wise', K(element_wise, FLAT, (1, 2, 1)), K(element_wise, dict(CURVED, layout=(1, 1, 2)), (2, 1, 1))),
    S_('again', *[K(redo, m, (1, 2, 1), lo, hi, [k]) for m, lo, hi in ((dict(ID='crazy', layout=(1, 1, 1), c=0.15), (0, 0, 0), (4, 3, 5)),)
                  for k in ('0-t s func', '1-t v func', '1-t ta func', '1-t te func', '1-t ta BC', '2-t s func', '2-t v func', '2-t bs BC', '2-t bv BC', '2-f bv BC')]),
    S_('connection', K(connection, 0, FLAT, (2, 1, 1)), K(connection, 2, FLAT, (2, 1, 1))),
    S_('projection', K(project, 1, FLAT, (2, 1, 1)), K(project, 2, FLAT, (2, 1, 1))),
    S_('refined', *[K(refined, k, h) for k in (0, 2) for h in (True, False)]),
    S_('projection 2', K(project, 1, dict(FLAT, pick=[0, 1]), (2, 1, 1), '2')),
    S_('boundary integration', K(boundary_integration)),
    S_('2D', K(planar, FLAT2, (1, 2)), K(planar, dict(CURVED2, layout=(2, 1)), (3, 2)), K(planar, dict(ID='cic', layout=(1, 1)), (1, 1))),
]
