"""C06: Jacobians, inverses and metrics are those of the mapping."""
import numpy as np
from engine.harness import H
from checks.common import *

BOUNDS = ('every point of the reference cell (symbolic xi, eta, sigma); every shipped 3D and 2D domain with default and '
          'changed shape parameters, equally and unequally spaced layouts of up to 12 elements including tiny domains and '
          'nearly equal spacings; all elements of each mesh; triangles of the shipped meshes; quadrature-point variants '
          'at Gauss and Lobatto degrees up to 3.')
ASSUMPTIONS = ['domain parameters are concrete (listed) values', 'derivatives of the mapping are exact derivatives of '
               'the executed expressions']

SIDE = {'N': (0, -1), 'S': (0, 1), 'W': (1, -1), 'E': (1, 1), 'B': (2, -1), 'F': (2, 1)}


def _arr(v):
    a = np.empty(1, dtype=object if not isinstance(v, float) else float)
    a[0] = v
    return a


def _d(ctx, ct, i, r, j):
    """exact derivative of a component of the element mapping."""
    def f(*a):
        with ctx.symbolic_code():
            return _ev(ct.mapping(*[_arr(k) for k in a])[i])
    return ctx.deriv(f, [k[0] for k in r], j)


def _ev(z):
    """entry of a Jacobian (may be a plain number) as the value at our single point."""
    z = np.asarray(z)
    return z.reshape(-1)[0]


def _det(J):
    if len(J) == 2:
        return J[0][0] * J[1][1] - J[0][1] * J[1][0]
    return (J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) +
            J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]))


def cells(ctx, dim, ID, layout, kw, tol=1e-7, elements=None, same=True, trace=True, regions=True, rng=1.):
    mesh = (mesh3 if dim == 3 else mesh2)(ID, layout, **kw)
    r = [_arr(ctx.real(n, -rng, rng)) for n in ('xi', 'eta', 'sg')[:dim]]
    XYZ = 'XYZ'[:dim]
    R = range(dim)
    els = [i for i in mesh.elements]
    if elements:
        els = [els[k] for k in elements if k < len(els)]
    CT = mesh.elements.coordinate_transformation
    for e in mesh.elements:     # the mapping is regular at the point (the inverses divide by the determinant)
        with ctx.symbolic_code():
            Jr = mesh.elements[e].coordinate_transformation.Jacobian_matrix(*r)
        ctx.assume(_det([[_ev(Jr[i][j]) for j in R] for i in R]) != 0)
    with ctx.symbolic_code():
        cache = {n: getattr(CT, n)(*r) for n in
                 ('mapping', 'Jacobian_matrix', 'Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix',
                  'inverse_Jacobian', 'inverse_metric_matrix') + tuple(XYZ) + tuple('J%d%d' % (i, j) for i in R for j in R)}
        CJ = CT.Jacobian_matrix(*r)
        CiJ = CT.inverse_Jacobian_matrix(*r, J=CJ)
        inter = dict(Jacobian=CT.Jacobian(*r, J=CJ), metric_matrix=CT.metric_matrix(*r, J=CJ),
                     inverse_Jacobian_matrix=CiJ, inverse_Jacobian=CT.inverse_Jacobian(*r, iJ=CiJ),
                     inverse_metric_matrix=CT.inverse_metric_matrix(*r, iJ=CiJ),
                     metric=CT.metric(*r, detJ=CT.Jacobian(*r, J=CJ)))
        vec = {n: getattr(CT.vectorized, n)(*r) for n in
               (('Jacobian', 'inverse_Jacobian') if dim == 3 else
                ('mapping', 'Jacobian_matrix', 'Jacobian', 'inverse_Jacobian_matrix'))}
        hom = mesh.elements.whether.homogeneous_according_to_types_wrt_metric
    for e in els:
        ct = mesh.elements[e].coordinate_transformation
        with ctx.symbolic_code():
            m = ct.mapping(*r)
            Jr = ct.Jacobian_matrix(*r)
            one = [getattr(ct, n)(*r) for n in XYZ]
            ents = [[getattr(ct, 'J%d%d' % (i, j))(*r) for j in R] for i in R]
            rows = [getattr(ct, 'J%d_' % i)(*r) for i in R]
            det, g, G = ct.Jacobian(*r), ct.metric(*r), ct.metric_matrix(*r)
            iJ, idet, iG = ct.inverse_Jacobian_matrix(*r), ct.inverse_Jacobian(*r), ct.inverse_metric_matrix(*r)
        J = [[_ev(Jr[i][j]) for j in R] for i in R]
        scale = max(1e-12, max(abs(float(v)) for v in np.ravel(_num(mesh, e, dim))))
        for i in R:
            for j in R:
                d = _d(ctx, ct, i, r, j)
                ctx.equal(J[i][j] / scale, _ev(d) / scale, tol, 'Jacobian is the derivative of the mapping', deriv=True)
        for i in R:
            ctx.equal(_ev(one[i]) / scale, _ev(m[i]) / scale, tol, 'X, Y, Z are the components of the mapping')
            for j in R:
                ctx.equal(_ev(ents[i][j]) / scale, J[i][j] / scale, tol, 'J_ij are the entries of the Jacobian matrix')
                ctx.equal(_ev(rows[i][j]) / scale, J[i][j] / scale, tol, 'J_i are the rows of the Jacobian matrix')
        D = _det(J)
        ctx.equal(_ev(det) / scale ** dim, D / scale ** dim, tol, 'Jacobian is the determinant')
        ctx.equal(_ev(g) / scale ** (2 * dim), D * D / scale ** (2 * dim), tol, 'metric is the squared determinant')
        for i in R:
            for j in R:
                ctx.equal(_ev(G[i][j]) / scale ** 2, sum(J[k][i] * J[k][j] for k in R) / scale ** 2, tol,
                          'metric matrix is J^T J')
                # the inverse times the Jacobian (claims multiplied by the determinant to keep them polynomial)
                ctx.equal(sum(_ev(iJ[i][k]) * J[k][j] for k in R), 1. if i == j else 0., 10 * tol, 'inverse Jacobian')
                ctx.equal(_ev(iG[i][j]) * scale ** 2, sum(_ev(iJ[i][k]) * _ev(iJ[j][k]) for k in R) * scale ** 2,
                          10 * tol, 'inverse metric matrix is J^-1 J^-T')
        ctx.equal(_ev(idet) * D, 1., 10 * tol, 'inverse Jacobian determinant')
        mine = dict(Jacobian_matrix=Jr, Jacobian=det, metric=g, metric_matrix=G, inverse_Jacobian_matrix=iJ,
                    inverse_Jacobian=idet, inverse_metric_matrix=iG, mapping=m)
        mine.update({n: one[k] for k, n in enumerate(XYZ)})
        mine.update({'J%d%d' % (i, j): ents[i][j] for i in R for j in R})
        unit = dict(Jacobian=dim, metric=2 * dim, metric_matrix=2, inverse_Jacobian_matrix=-1, inverse_Jacobian=-dim,
                    inverse_metric_matrix=-2)
        for what, C in (('cached', cache), ('cached with intermediate data', inter)):
            for n in C:
                with ctx.symbolic_code():
                    v = C[n][e]
                    v = C[n][e]
                _same(ctx, v, mine[n], tol, '%s %s is the element one' % (what, n), scale ** unit.get(n, 1))
        k = mesh.elements.indices.index(e) if hasattr(mesh.elements.indices, 'index') else \
            list(mesh.elements.indices).index(e)
        for n in vec:
            v = vec[n]
            lead = n == 'mapping' or not hom
            if n in ('Jacobian_matrix', 'inverse_Jacobian_matrix'):
                v = [[v[i][j][k] if lead else v[i][j] for j in R] for i in R]
            elif lead:
                v = v[k]
            _same(ctx, v, mine[n], tol, 'vectorised %s is the element one' % n, scale ** unit.get(n, 1))
        # region interpolation: the element mapping is the region mapping at the element's spacing
        if not regions:
            continue
        rn = mesh.do.find.region_name_of_element(e)
        itp = mesh.domain.regions[rn].interpolation
        o, dl = ct.origin, ct.delta
        rst = [o[i] + (r[i] + 1) / 2 * dl[i] for i in R]
        with ctx.symbolic_code():
            mr = itp.mapping(*rst)
            JR = itp.Jacobian_matrix(*rst)
            comp = [getattr(itp, 'mapping_' + n)(*rst) for n in XYZ]
            rc = [[getattr(itp, 'Jacobian_%s%s' % (n, q))(*rst) for q in 'rst'[:dim]] for n in XYZ]
        for i in R:
            ctx.equal(_ev(mr[i]) / scale, _ev(m[i]) / scale, tol, 'region mapping')
            ctx.equal(_ev(comp[i]) / scale, _ev(m[i]) / scale, tol, 'region mapping component')
            for j in R:
                ctx.equal(_ev(JR[i][j]) * dl[j] / 2 / scale, J[i][j] / scale, tol, 'region Jacobian')
                ctx.equal(_ev(rc[i][j]) * dl[j] / 2 / scale, J[i][j] / scale, tol, 'region Jacobian component')
    if trace:
        (_trace3 if dim == 3 else _trace2)(ctx, mesh, r, els, tol)


def _num(mesh, e, dim):
    return np.array([[float(np.ravel(v)[0]) for v in row] for row in
                     mesh.elements[e].coordinate_transformation.Jacobian_matrix(*[np.array([0.137 * (k + 1)])
                                                                                 for k in range(dim)])])


def _same(ctx, a, b, tol, label, scale=1.):
    if isinstance(b, (list, tuple)) or (isinstance(b, np.ndarray) and b.ndim > 1):
        ctx.claim(len(a) == len(b), label + ' (shape)')
        for x, y in zip(a, b):
            _same(ctx, x, y, tol, label, scale)
    else:
        ctx.equal(_ev(a) / scale, _ev(b) / scale, tol, label)


def _trace3(ctx, mesh, r, els, tol):
    TE = mesh.trace.elements
    seen = set()
    for e in els:
        ct = mesh.elements[e].coordinate_transformation
        for s, i in zip('NSWEBF', TE.map[e]):
            if i in seen:
                continue
            te = TE[i]
            if te.CHARACTERISTIC_element != e or te.CHARACTERISTIC_side != s:
                continue
            seen.add(i)
            ax, end = SIDE[s]
            free = [k for k in range(3) if k != ax]
            ep = [r[k] for k in free]
            full = [r[k] if k != ax else _arr(float(end)) for k in range(3)]
            tc = te.coordinate_transformation
            extra = dict(from_element=e, side=s) if te.whether.on_periodic_boundary else {}
            with ctx.symbolic_code():
                Jn = tc.Jacobian_matrix(*ep)
                Je = ct.Jacobian_matrix(*full)
            ctx.assume(_det([[_ev(Je[q][k]) for k in range(3)] for q in range(3)]) != 0)
            a, b = [[_ev(Jn[q][k]) for q in range(3)] for k in range(2)]
            ctx.assume(sum((a[q] * b[(q + 1) % 3] - a[(q + 1) % 3] * b[q]) ** 2 for q in range(3)) != 0)
            with ctx.symbolic_code():
                m = tc.mapping(*ep, **extra)
                J, g, G = tc.Jacobian_matrix(*ep), tc.metric(*ep), tc.metric_matrix(*ep)
                iJ = tc.inverse_Jacobian_matrix(*ep)
                n = tc.unit_normal_vector(*ep)
                ref = ct.mapping(*full)
            scale = max(1e-12, np.abs(_num(mesh, e, 3)).max())
            cols = [(ax + 1) % 3, (ax + 2) % 3]
            Jv = [[_ev(J[i][j]) for j in range(2)] for i in range(3)]
            for q in range(3):
                ctx.equal(_ev(m[q]) / scale, _ev(ref[q]) / scale, tol, 'trace mapping is the element mapping on the side')
                for c in range(2):
                    d = _d(ctx, ct, q, full, cols[c])
                    ctx.equal(Jv[q][c] / scale, _ev(d) / scale, tol, 'trace Jacobian', deriv=True)
            for a in range(2):
                for b in range(2):
                    gab = sum(Jv[q][a] * Jv[q][b] for q in range(3))
                    ctx.equal(_ev(G[a][b]) / scale ** 2, gab / scale ** 2, tol, 'trace metric matrix')
                    ctx.equal(sum(_ev(iJ[a][q]) * Jv[q][b] for q in range(3)), 1. if a == b else 0., 10 * tol,
                              'trace inverse Jacobian')
            cr = [Jv[(q + 1) % 3][0] * Jv[(q + 2) % 3][1] - Jv[(q + 2) % 3][0] * Jv[(q + 1) % 3][1] for q in range(3)]
            ctx.equal(_ev(g) / scale ** 4, sum(c * c for c in cr) / scale ** 4, tol, 'trace metric is |a x b|^2')
            nv = [_ev(n[q]) for q in range(3)]
            ctx.equal(sum(c * c for c in nv), 1., 10 * tol, 'unit normal has length one')
            for q in range(3):
                ctx.equal((nv[q] * cr[(q + 1) % 3] - nv[(q + 1) % 3] * cr[q]) / scale ** 2, 0., 10 * tol,
                          'unit normal is along the normal')
            with ctx.symbolic_code():
                orth = _orth(te)
                cj = tc.constant.Jacobian if orth else None
                cn = tc.constant.unit_normal_vector if orth else None
            if cj is not None:
                ctx.equal(cj ** 2 / scale ** 4, _ev(g) / scale ** 4, tol, 'constant trace Jacobian')
            if cn is not None:
                ctx.equal([cn[q] for q in range(3)], nv, 10 * tol, 'constant unit normal')


def _orth(te):
    try:
        return te.whether.orthogonal
    except NotImplementedError:     # transfinite regions do not classify their sides
        return None


def _trace2(ctx, mesh, r, els, tol):
    TE = mesh.trace.elements
    seen = set()
    for e in els:
        ct = mesh.elements[e].coordinate_transformation
        for s, i in zip('UDLR', TE.map[e]):
            te = TE[i]
            if i in seen or te.CHARACTERISTIC_element != e or te.CHARACTERISTIC_edge != s:
                continue
            seen.add(i)
            ax, end = {'U': (0, -1), 'D': (0, 1), 'L': (1, -1), 'R': (1, 1)}[s]
            full = [r[k] if k != ax else _arr(float(end)) for k in range(2)]
            tc = te.coordinate_transformation
            with ctx.symbolic_code():
                m, J, g = tc.mapping(r[1 - ax]), tc.Jacobian_matrix(r[1 - ax]), tc.metric(r[1 - ax])
                ref = ct.mapping(*full)
                cj = tc.constant.Jacobian
            scale = max(1e-12, np.abs(_num(mesh, e, 2)).max())
            for q in range(2):
                ctx.equal(_ev(m[q]) / scale, _ev(ref[q]) / scale, tol, 'trace mapping is the element mapping on the edge')
                d = _d(ctx, ct, q, full, 1 - ax)
                ctx.equal(_ev(J[q]) / scale, _ev(d) / scale, tol, 'trace Jacobian', deriv=True)
            gg = sum(_ev(J[q]) ** 2 for q in range(2))
            ctx.equal(_ev(g) / scale ** 2, gg / scale ** 2, tol, 'trace metric')
            if cj is not None:
                ctx.equal(cj ** 2 / scale ** 2, gg / scale ** 2, tol, 'constant trace Jacobian')


def quad(ctx, dim, ID, layout, kw, tol=1e-9):
    """quadrature-point variants against the element-wise ones, at a point picked by the solver."""
    mesh = (mesh3 if dim == 3 else mesh2)(ID, layout, **kw)
    CT = mesh.elements.coordinate_transformation
    from components.quadrature import Quadrature
    deg = [2, 1, 3][:dim]
    for kind in ('Gauss', 'Lobatto'):
        nodes = Quadrature(deg, category=kind).quad[0]
        G = np.meshgrid(*nodes, indexing='ij')
        w = ctx.reals('w' + kind, G[0].size).reshape(G[0].shape)     # arbitrary weights: sums agree for all of them
        for Q, order in ((CT.QUAD_1d, 'F'), (getattr(CT, 'QUAD_%dd' % dim), None)):
            for n in ('mapping', 'Jacobian_matrix', 'Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix',
                      'inverse_Jacobian', 'inverse_metric_matrix'):
                with ctx.symbolic_code():
                    C = getattr(Q, n)(deg, kind)
                for e in mesh.elements:
                    with ctx.symbolic_code():
                        v = C[e]
                        ref = getattr(mesh.elements[e].coordinate_transformation, n)(*G)
                    a, b = _leaves(v), _leaves(ref)
                    ctx.claim(len(a) == len(b), 'QUAD %s (components)' % n)
                    for x, y in zip(a, b):
                        y = np.broadcast_to(y, G[0].shape)
                        wy = w if order is None else w.ravel(order)
                        x = np.broadcast_to(x, wy.shape)
                        ctx.equal((x * wy).sum(), (y * w).sum(), tol * max(1., np.abs(np.asarray(y, float)).max()),
                                  'QUAD %s at the quadrature points' % n)


def _leaves(v):
    if isinstance(v, (list, tuple)):
        return sum([_leaves(i) for i in v], [])
    return [np.asarray(v)]


def triangle(ctx, grid, els):
    fc = tri(grid, 2)
    mesh = fc.mesh
    r = [_arr(ctx.real(n)) for n in ('r', 's')]
    CT = mesh.elements.coordinate_transformation
    R = range(2)
    with ctx.symbolic_code():
        names = ('mapping', 'Jacobian_matrix', 'Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix',
                 'inverse_Jacobian', 'inverse_metric_matrix')
        C = {n: getattr(CT, n)(*r) for n in names}
    L = [e for e in mesh.elements]
    for e in [L[k] for k in els if k < len(L)]:
        ct = mesh.elements[e].coordinate_transformation
        with ctx.symbolic_code():
            Jr = ct.Jacobian_matrix(*r)
        ctx.assume(_det([[_ev(Jr[i][j]) for j in R] for i in R]) != 0)     # not at the collapsed vertex
        with ctx.symbolic_code():
            v = {n: getattr(ct, n)(*r) for n in names}
        J = [[_ev(v['Jacobian_matrix'][i][j]) for j in R] for i in R]
        for i in R:
            for j in R:
                d = _d(ctx, ct, i, r, j)
                ctx.equal(J[i][j], _ev(d), 1e-9, 'triangle Jacobian', deriv=True)
                ctx.equal(_ev(v['metric_matrix'][i][j]), sum(J[k][i] * J[k][j] for k in R), 1e-9, 'triangle metric matrix')
        D = _det(J)
        ctx.equal(_ev(v['Jacobian']), D, 1e-9, 'triangle Jacobian determinant')
        ctx.equal(_ev(v['metric']), D * D, 1e-9, 'triangle metric')
        # the mapping is singular at the collapsed vertex: products with the determinant
        iJ = [[_ev(v['inverse_Jacobian_matrix'][i][j]) for j in R] for i in R]
        for i in R:
            for j in R:
                ctx.equal(sum(iJ[i][k] * J[k][j] for k in R) * D, D * (1. if i == j else 0.), 1e-8, 'triangle inverse Jacobian')
                ctx.equal(_ev(v['inverse_metric_matrix'][i][j]) * D * D, sum(iJ[i][k] * iJ[j][k] for k in R) * D * D, 1e-8,
                          'triangle inverse metric')
        ctx.equal(_ev(v['inverse_Jacobian']) * D * D, D, 1e-8, 'triangle inverse determinant')
        for n in names:
            with ctx.symbolic_code():
                c = C[n][e]
            for x, y in zip(_leaves(c), _leaves(v[n])):
                k = {'inverse_Jacobian_matrix': 1, 'inverse_Jacobian': 1, 'inverse_metric_matrix': 2}.get(n, 0)
                ctx.equal(_ev(x) * D ** k, _ev(y) * D ** k, 1e-8, 'triangle cached %s' % n)


B3 = ((-1., 1.5), (0., 1.), (0.5, 4.))
TINY = dict(c=0, bounds=((0, 0.002), (0, 0.003), (0, 0.002)))
HARNESSES = [
    H('3d crazy c=0 unequal', cells, dim=3, ID='crazy', layout=([1, 3], [2, 1], [1]), kw=dict(c=0, bounds=B3)),
    H('3d crazy curved', cells, dim=3, ID='crazy', layout=([1, 2], 1, 1), kw=dict(c=0.17, bounds=B3), tol=1e-6),
    H('3d crazy negative', cells, dim=3, ID='crazy', layout=(1, 2, 1), kw=dict(c=-0.2), tol=1e-6),
    H('3d equal in y, z', cells, dim=3, ID='crazy', layout=([1, 3], 2, 2), kw=dict(c=0)),
    H('3d equal in x, z', cells, dim=3, ID='crazy', layout=(2, [1, 3], 2), kw=dict(c=0)),
    H('3d equal in x, y', cells, dim=3, ID='crazy', layout=(2, 2, [1, 3]), kw=dict(c=0)),
    H('3d sizes swapped', cells, dim=3, ID='crazy', layout=([1, 2], [1, 2], [1, 2]), kw=dict(c=0)),
    H('3d tiny and nearly equal', cells, dim=3, ID='crazy', layout=([1, 1.2, 1], [1, 1.0001], [1]), kw=TINY),
    H('3d nearly equal', cells, dim=3, ID='crazy', layout=([1, 1.00002], [1, 1.00003], [1]), kw=dict(c=0)),
    H('3d crazy periodic', cells, dim=3, ID='crazy_periodic', layout=(1, 2, [1, 3]), kw=dict(c=0.1), tol=1e-6),
    H('3d bridge', cells, dim=3, ID='bridge_arch_cracked', layout=(1, 1, 1), kw={}, tol=1e-6),
    H('3d psc', cells, dim=3, ID='psc', layout=(1, 1, 1), kw={}, tol=1e-6, elements=(0, 3)),
    H('3d LDC', cells, dim=3, ID='LDC', layout=([1, 2], 1, [2, 1]), kw=dict(L=1.5, w=0.7, h=2), trace=False),
    H('3d ct', cells, dim=3, ID='ct', layout=(1, [1, 2], 1), kw=dict(c=0.1), tol=1e-6),
    H('3d cuboid', cells, dim=3, ID='cuboid', layout=([1, 2], [2, 1], 1), kw=dict(p_NWB=(-1, 0.5, 2), length=2, width=0.5,
                                                                                 height=3)),
    H('3d cuboid periodic', cells, dim=3, ID='cuboid_periodic', layout=(1, [1, 2], [3, 1]), kw={}),
    H('3d pwc', cells, dim=3, ID='pwc', layout=(1, 1, 1), kw={}, tol=1e-6, elements=(0,)),
    H('2d crazy c=0 unequal', cells, dim=2, ID='crazy', layout=([1, 3], [2, 1, 2]), kw=dict(c=0, bounds=((-1, 1.5), (0, 0.4)))),
    H('2d crazy curved', cells, dim=2, ID='crazy', layout=([1, 2], [1, 1]), kw=dict(c=0.2, bounds=((-1, 1.5), (0, 0.4))), tol=1e-6),
    H('2d sizes swapped', cells, dim=2, ID='crazy', layout=([1, 2, 3], [3, 2, 1]), kw=dict(c=0)),
    H('2d tiny and nearly equal', cells, dim=2, ID='crazy', layout=([1, 1.2, 1], [1, 1.0001]),
      kw=dict(c=0, bounds=((0, 0.0003), (0, 0.0002)))),
    H('2d nearly equal', cells, dim=2, ID='crazy', layout=([1, 1.00002], [1, 1.00003]), kw=dict(c=0)),
    H('2d crazy periodic', cells, dim=2, ID='crazy_periodic', layout=([1, 2], 2), kw=dict(c=0.15), tol=1e-6),
    H('2d rectangle', cells, dim=2, ID='rectangle', layout=([1, 2], 2), kw={}),
    H('2d quadrangle', cells, dim=2, ID='quadrangle', layout=([1, 1.00003], [1, 2]), kw={}),
    H('2d bcr', cells, dim=2, ID='bcr', layout=([1, 1], [1, 2]), kw={}, tol=1e-6, rng=0.99),
    H('2d chp1', cells, dim=2, ID='chp1', layout=(1, 1), kw={}, tol=1e-6),
    H('2d chp2', cells, dim=2, ID='chp2', layout=(1, 1), kw={}, tol=1e-6),
    H('2d cic', cells, dim=2, ID='cic', layout=(1, 1), kw={}, tol=1e-6),
    H('2d triangle_test', cells, dim=2, ID='triangle_test', layout=(1, 1), kw={}, tol=1e-6),
    H('3d quadrature points', quad, dim=3, ID='crazy', layout=([1, 3], 1, [1, 1]), kw=dict(c=0, bounds=B3)),
    H('3d quadrature points curved', quad, dim=3, ID='crazy', layout=([1, 3], 1, 1), kw=dict(c=0.1, bounds=B3)),
    H('2d quadrature points', quad, dim=2, ID='crazy', layout=([1, 3], [2, 1]), kw=dict(c=0, bounds=((-1, 1.5), (0, 0.4)))),
    H('2d quadrature points curved', quad, dim=2, ID='chp1', layout=(1, 1), kw={}),
    H('triangles', triangle, grid='rand0', els=(0, 3, 7)),
    H('triangles square', triangle, grid='square', els=(0, 1, 5)),
]
