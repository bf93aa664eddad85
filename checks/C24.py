"""C24: exported data and portions of discrete fields: grid points, cells and values."""
import itertools
import os
import sys
import numpy as np
from engine.harness import H
from checks.common import *
from engine import mpisim
from checks.C13 import S_, C
from checks.C22 import Dir

BOUNDS = ('every local cochain with entries in [-1,1] for forms on meshes of 1 to 4 regions and up to 8 elements (straight, curved, multi-region) and on triangle '
          'meshes of up to 8 cells, degrees 1..3; fixed export grids, different per region; portions: every range [x0,x1] x [y0,y1]; 1-3 simulated processes')
ASSUMPTIONS = ['the vtk and mat writing libraries write the arrays they are given (they are replaced by recorders of their arguments)',
               'several processes are simulated in one Python process']


class Recorder(object):
    """in place of the functions of the vtk library that write a file."""
    def __init__(self, *places):
        self.places = places

    def __enter__(self):
        self.calls = []
        self.old = [getattr(o, n) for o, n in self.places]

        def rec(path, *args, **kw):
            self.calls.append((path, args, kw))
            return path
        for o, n in self.places:
            setattr(o, n, rec)
        return self.calls

    def __exit__(self, *a):
        for (o, n), f in zip(self.places, self.old):
            setattr(o, n, f)


def module(name):
    import importlib
    importlib.import_module(name)
    return sys.modules[name]


def location(mesh, r, grids, ind):
    """element and local coordinates of a point of the grid of a region"""
    Sp = mesh.elements.spacing[r]
    pos, loc = [], []
    for d in range(len(grids)):
        s = grids[d][ind[d]]
        S = np.asarray(Sp[d], float)
        e = min(int(np.searchsorted(S, s, side='right')) - 1, len(S) - 2)
        pos.append(e)
        loc.append(np.array([2 * (s - S[e]) / (S[e + 1] - S[e]) - 1]))
    gn = mesh.___PRIVATE_generate_element_global_numbering___(number_what=r)
    return int(gn[tuple(pos)]), loc


def expected(mesh, f, r, grids):
    """coordinates and values on the grid of a region, point by point"""
    sh = tuple(len(a) for a in grids)
    X = V = None
    for ind in np.ndindex(*sh):
        i, loc = location(mesh, r, grids, ind)
        a, b = f.reconstruct(*loc, ravel=True, element_range=i)
        if X is None:
            X = [np.empty(sh) for _ in a[i]]
            V = [np.empty(sh, dtype=object) for _ in b[i]]
        for c in range(len(X)):
            X[c][ind] = float(a[i][c][0])
        for c in range(len(V)):
            V[c][ind] = b[i][c][0]
    return X, V


def setting(dim, ID, layout, p, kw, kind='Lobatto'):
    m = (mesh3 if dim == 3 else mesh2)(ID, layout, **kw)
    s = (space3 if dim == 3 else space2)(p, kind)
    return m, (fc3 if dim == 3 else fc2)(m, s)


G3 = [np.array([0, .3, .5]), np.array([.2, 1.]), np.array([0., .7])]
G2 = [np.array([0, .3, .45, 1]), np.array([.2, .4, 1.])]
K3 = ('0-f', '1-f', '2-f', '3-f')
K2 = ('0-f-o', '1-f-i', '1-f-o', '2-f-o')


def per_region(names, G):
    """a different grid in every region"""
    return {r: [g * (1 - .05 * k) for g in G] for k, r in enumerate(names)}


def build(ctx, n, dim, ID, layout, p, kw, kinds, names, common=False):
    """the objects as one process sees them, and on every simulated process with the same cochains"""
    m, fc = setting(dim, ID, layout, p, kw)
    fs = [fc(k, name=nm) for k, nm in zip(kinds, names)]
    cs = []
    for j, f in enumerate(fs):
        if common:
            global_cochain(ctx, f, 'g%d' % j)
            cs.append(dict(f.cochain.local))
        else:
            cs.append(set_cochain(ctx, f, 'c%d' % j))

    def local(r):
        mm, ff = setting(dim, ID, layout, p, kw)
        gs = [ff(k, name=nm) for k, nm in zip(kinds, names)]
        for g, c in zip(gs, cs):
            g.cochain.local = {i: c[i] for i in mm.elements}
        return mm, gs
    return m, fs, local


def structured(ctx, dim, ID, layout, p, kw=None, kinds=None, names=None, n=1, same=False, tol=1e-8):
    """gridToVTK: one file per region with the points and the values of the region"""
    T = module('objects.CSCG.tools.gridToVTK')
    kinds = kinds or (K3 if dim == 3 else K2)
    names = names or ['f' + k.replace('-', '') for k in kinds]
    m, fs, local = build(ctx, n, dim, ID, layout, p, kw or {}, kinds, names)
    R = m.domain.regions.names
    G = (G3 if dim == 3 else G2)
    grids = {r: G for r in R} if same else per_region(R, G)
    obj = mpisim.run(n, local) if n > 1 else [(m, fs)]
    with Dir(), Recorder((T.hl, 'gridToVTK')) as calls, ctx.symbolic_code():
        if n > 1:
            mpisim.run(n, lambda r: T.gridToVTK(G if same else grids, obj[r][1], 'out'))
        else:
            T.gridToVTK(G if same else grids, fs, 'out')
    ctx.claim(sorted(os.path.basename(c[0]) for c in calls) == sorted('region_' + r[2:] for r in R), 'one file per region')
    unique = []
    for nm in names:
        k, q = nm, 0
        while k in unique:
            q += 1
            k = '%s_%d' % (nm, q)
        unique.append(k)
    for path, args, kws in calls:
        r = 'R:' + os.path.basename(path)[len('region_'):]
        P = kws['pointData']
        ctx.claim(len(args) == 3 and sorted(P) == sorted(unique), 'the exported variables')
        for f, nm in zip(fs, unique):
            X, V = expected(m, f, r, grids[r])
            if dim == 2:
                X = X + [np.zeros_like(X[0])]
                if len(V) == 2:
                    V = V + [np.zeros_like(V[0])]
            for c in range(3):
                ctx.equal(np.asarray(args[c]).reshape(-1), X[c].reshape(-1), tol, 'the points of region %s' % r)
            got = P[nm] if isinstance(P[nm], (tuple, list)) else [P[nm]]
            ctx.claim(len(got) == len(V), 'the components of %s' % nm)
            for a, b in zip(got, V):
                ctx.claim(np.shape(a)[:dim] == b.shape, 'the shape of the data')
                ctx.equal(np.asarray(a).reshape(-1), b.reshape(-1), tol, 'the values of %s' % nm)


CORNERS = {8: [(0, 0), (1, 0), (0, 1), (1, 1)], 9: [(0, 0), (1, 0), (1, 1), (0, 1)],
           11: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)],
           12: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


def key(x):
    return tuple(int(round(float(c) * 1e7)) for c in x)


def unstructured(ctx, dim, ID, layout, p, kw=None, kinds=None, n=1, one=False, tol=1e-8):
    """unstructuredGridToVTK: a conforming mesh of the cells of the grids of all regions, with the values at its nodes"""
    T = module('objects.CSCG.tools.unstructuredGridToVTK')
    kinds = kinds or (K3 if dim == 3 else K2)
    names = ['f' + k.replace('-', '') for k in kinds]
    m, fs, local = build(ctx, n, dim, ID, layout, p, kw or {}, kinds, names)
    R = m.domain.regions.names
    G = [np.array([0, .3, 1]), np.array([0, .6, 1.]), np.array([0., 1.])][:dim]
    obj = mpisim.run(n, local) if n > 1 else [(m, fs)]
    with Dir(), Recorder((T.hl, 'unstructuredGridToVTK')) as calls, ctx.symbolic_code():
        go = lambda r: T.unstructuredGridToVTK(G, obj[r][1][0] if one else obj[r][1], 'out')
        out = mpisim.run(n, go) if n > 1 else [go(0)]
    ctx.claim(len(calls) == 1 and len(set(map(str, out))) == 1, 'one file')
    (path, args, kws), = calls
    N = 2 ** dim
    X = np.array([np.asarray(a, dtype=float).reshape(-1) for a in args]).T
    if dim == 2:
        ctx.claim(bool(np.all(X[:, 2] == 0)), 'the z-coordinates')
    cells = np.prod([len(g) - 1 for g in G]) * len(R)
    con, off, typ = (np.asarray(kws[k]) for k in ('connectivity', 'offsets', 'cell_types'))
    ctx.claim(con.shape == (cells * N,) and list(map(float, off)) == [N * (k + 1) for k in range(cells)] and len(typ) == cells, 'the amount of cells')
    con = con.reshape(cells, N).astype(int)
    found = {tuple(sorted(key(X[q]) for q in c)): e for e, c in enumerate(con)}
    ctx.claim(len(found) == cells, 'every cell is exported once')
    values = {}
    used = {}
    exp = {r: [expected(m, f, r, G) for f in fs] for r in R}
    for r in R:
        XX = exp[r][0][0]
        for ind in np.ndindex(*[len(g) - 1 for g in G]):
            def at(c):
                return tuple(i + j for i, j in zip(ind, c))

            def co(c):
                return [XX[d][at(c)] for d in range(dim)] + [0.] * (3 - dim)
            k = tuple(sorted(key(co(c)) for c in itertools.product((0, 1), repeat=dim)))
            if k not in found:
                ctx.claim(False, 'a cell of region %s is missing' % r)
                continue
            e = found[k]
            t = int(typ[e])
            ctx.claim(t in CORNERS and len(CORNERS[t]) == N, 'the type of a cell')
            order = [key(X[q]) for q in con[e]]
            ctx.claim(order == [key(co(c)) for c in CORNERS[t]], 'the order of the corners of a cell')
            for q, c in zip(con[e], CORNERS[t]):
                used.setdefault(key(co(c)), set()).add(int(q))
                for j in range(1 if one else len(fs)):
                    for s, v in enumerate(exp[r][j][1]):
                        values.setdefault((int(q), j, s), {})[r] = v[at(c)]
    ctx.claim(sorted(q for s in used.values() for q in s) == list(range(len(X))), 'every point is shared by the cells around it')
    P = kws['pointData']
    ctx.claim(sorted(P) == sorted(names[:1] if one else names), 'the exported variables')
    for (q, j, s), vs in values.items():
        D = P[names[j]]
        a = (D[s] if isinstance(D, (list, tuple)) else D)[q]
        if len(vs) == 1:
            ctx.equal(a, next(iter(vs.values())), tol, 'the value at a point')
        else:                            # on the interface of regions: the value of one of them
            prod = 1
            for v in vs.values():
                prod = prod * (a - v)
            ctx.equal(prod, 0, tol, 'the value at a point of an interface')


def to_file(ctx, k, ID, layout, p, samples, regions=None, ext='txt', kw=None, n=1, tol=1e-8):
    """3D forms: samples uniformly distributed in the elements, written region by region"""
    import objects.CSCG._3d.forms.standard.base.export.field as F
    m, fs, local = build(ctx, n, 3, ID, layout, p, kw or {}, [k], ['f'])
    f = fs[0]
    R = m.domain.regions.names
    which = R if regions is None else [R[j] for j in regions]
    arg = None if regions is None else (which[0] if len(which) == 1 else which)
    obj = mpisim.run(n, local) if n > 1 else [(m, fs)]
    files = {}

    def txt(path, table, *a, **kws):
        files[path] = np.array(table)

    def mat(path, d, *a, **kws):
        files[path] = {q: np.array(v) for q, v in d.items()}
    old = F.np.savetxt, F.savemat
    with Dir(), ctx.symbolic_code():
        try:
            F.np.savetxt, F.savemat = txt, mat
            go = lambda r: obj[r][1][0].export.field.to_file('out.' + ext, numOfSamples=samples, regions=arg)
            mpisim.run(n, go) if n > 1 else go(0)
        finally:
            F.np.savetxt, F.savemat = old
    vec = k in ('1-f', '2-f')
    tail = '__x_y_z_vx_vy_vz.' if vec else '__x_y_z_v.'
    ctx.claim(sorted(files) == sorted('out__InRegion_' + r[2:] + tail + ext for r in which), 'one file per region')
    S = samples if isinstance(samples, (list, tuple)) else [samples] * 3
    loc = []
    for s in S:
        d = int((s / m.elements.global_num) ** (1 / 3)) + 1
        loc.append(np.array([-1 + (2 * j + 1) / d for j in range(d)]))
    for r in which:
        rows = files['out__InRegion_' + r[2:] + tail + ext]
        if ext == 'mat':
            ctx.claim(sorted(rows) == sorted(['x', 'y', 'z'] + (['vx', 'vy', 'vz'] if vec else ['v'])), 'the variables')
            gn = m.___PRIVATE_generate_element_global_numbering___(number_what=r)
            sh = tuple(a * len(b) for a, b in zip(gn.shape, loc))
            ctx.claim(all(np.shape(v) == sh for v in rows.values()), 'the shape of the arrays')
            x = np.asarray(rows['x'], float), np.asarray(rows['y'], float), np.asarray(rows['z'], float)
            if gn.shape != (1, 1, 1) or len(loc[0]) > 1:          # structured: neighbours in the arrays are neighbours in the region
                for ind in np.ndindex(*sh):
                    i = int(gn[tuple(a // len(b) for a, b in zip(ind, loc))])
                    q = [np.array([b[a % len(b)]]) for a, b in zip(ind, loc)]
                    A, B = f.reconstruct(*q, ravel=True, element_range=i)
                    for c in range(3):
                        ctx.equal(x[c][ind], A[i][c][0], tol, 'a point of the structured data')
                    for c, nm in enumerate(['vx', 'vy', 'vz'] if vec else ['v']):
                        ctx.equal(rows[nm][ind], B[i][c][0], tol, 'a value of the structured data')
            continue
        where = {key(row[:3]): row for row in rows}
        gn = m.___PRIVATE_generate_element_global_numbering___(number_what=r)
        ctx.claim(len(where) == len(rows) == gn.size * np.prod([len(a) for a in loc]), 'the amount of samples')
        for i in gn.reshape(-1):
            i = int(i)
            A, B = f.reconstruct(*loc, ravel=True, element_range=i)
            for j in range(len(A[i][0])):
                kk = key([A[i][c][j] for c in range(3)])
                if kk not in where:
                    ctx.claim(False, 'a sample is missing')
                    continue
                ctx.equal(where[kk][3:], np.array([B[i][c][j] for c in range(len(B[i]))]), tol, 'the value of a sample')


def tri_export(ctx, mesh, p, how, kinds, q=None, n=1, tool=False, K=1, tol=1e-8, before=None):
    """vtk cells of the triangles with the values at their nodes"""
    TQ = module('objects.miUsGrid.triangular.tools.vtk_triangle_and_quad')
    QT = module('objects.miUsGrid.triangular.tools.vtk_quadratic_triangle')
    fc = tri(mesh, p, K=K) if K != 1 else tri(mesh, p)
    m = fc.mesh if hasattr(fc, 'mesh') else fc._mesh_
    fs = [fc(k, name='f' + k.replace('-', '')) for k in kinds]
    cs = []
    for j, f in enumerate(fs):
        if k0(f):
            global_cochain(ctx, f, 'g%d' % j)
            cs.append(dict(f.cochain.local))
        else:
            cs.append(set_cochain(ctx, f, 'c%d' % j))

    def local(r):
        ff = tri(mesh, p, K=K) if K != 1 else tri(mesh, p)
        gs = [ff(k, name='f' + k.replace('-', '')) for k in kinds]
        for g, c in zip(gs, cs):
            g.cochain.local = {i: c[i] for i in g.mesh.elements.indices}
        return gs
    objs = mpisim.run(n, local) if n > 1 else [fs]
    places = []
    for f in fs:
        M = sys.modules[type(f.export.vtk).__module__]
        if (M, 'unstructuredGridToVTK') not in places:
            places.append((M, 'unstructuredGridToVTK'))
    places += [(TQ, 'unstructuredGridToVTK'), (QT, 'unstructuredGridToVTK')]

    def go(r, q=q):
        g = objs[r]
        if tool:
            if how == 'tq':
                TQ.vtk_triangle_and_quad(*g, p=q, filename='out')
            else:
                QT.vtk_quadratic_triangle(*g, filename='out')
        elif how == 'tq':
            g[0].export.vtk.triangle_and_quad(p=q, filename='out')
        else:
            g[0].export.vtk.quadratic_triangle(filename='out')
    if before:                           # another export of the same mesh, with more or fewer points
        with Dir(), Recorder(*places), ctx.symbolic_code():
            mpisim.run(n, lambda r: go(r, before)) if n > 1 else go(0, before)
    with Dir(), Recorder(*places) as calls, ctx.symbolic_code():
        mpisim.run(n, go) if n > 1 else go(0)
    ctx.claim(len(calls) == 1, 'one file')
    (path, args, kws), = calls
    X = np.array([np.asarray(a, dtype=float).reshape(-1) for a in args]).T
    con, off, typ = (np.asarray(kws[k]).astype(int) for k in ('connectivity', 'offsets', 'cell_types'))
    P = kws['pointData']
    if not tool:
        fs = fs[:1]
    ctx.claim(sorted(P) == sorted(f.name for f in fs), 'the exported variables')
    ctx.claim(off[-1] == len(con) and len(off) == len(typ), 'the offsets')
    cells = np.split(con, off[:-1])
    q = (q or p) if how == 'tq' else 2
    per = q * q if how == 'tq' else 1
    els = sorted(m.elements.indices)
    ctx.claim(len(cells) == per * len(els), 'the amount of cells')
    shared = all(k0(f) for f in fs)      # the other forms are sampled next to the singular vertex, not in it
    slack = 1e-9 if shared else 1.2e-2
    def grid(lo):
        return [np.linspace(-1, 1, q + 1), np.linspace(lo, 1, q + 1) if how == 'tq' else np.array([lo, 0., 1.])]
    loc = grid(-1. if k0(fs[0]) else -.99)
    at = {}                              # node -> values of the elements around it
    A, _ = fs[0].reconstruct(*loc)
    for e in els:
        x = np.array([np.asarray(A[e][c], dtype=float) for c in range(2)])
        T = m.elements[e].coordinate_transformation
        vs = np.array(T.mapping(np.array([-1., 1, -1]), np.array([-1., 1, 1]))).T
        area = abs(np.linalg.det(vs[1:] - vs[0])) / 2
        h = np.sqrt(area)
        own = cells[e * per:(e + 1) * per]
        tot = 0
        for k, c in enumerate(own):
            t = typ[e * per + k]
            ctx.claim(len(c) == {5: 3, 9: 4, 22: 6}[int(t)], 'the corners of a cell')
            pts = X[c][:3] if t == 22 else X[c]
            w = [pts[j][0] * pts[(j + 1) % len(pts)][1] - pts[(j + 1) % len(pts)][0] * pts[j][1] for j in range(len(pts))]
            tot += abs(sum(w)) / 2
            if t == 22:                  # the mid-points of the edges come after the corners in their order
                for j in range(3):
                    ctx.claim(bool(np.allclose(X[c][3 + j], (pts[j] + pts[(j + 1) % 3]) / 2, atol=slack * h + 1e-9)), 'the mid-point of an edge')
        ctx.claim(abs(tot - area) < (1e-8 if shared else .06) * area, 'the cells cover the triangle')
        for g in sorted(set(int(v) for c in own for v in c)):
            d = np.hypot(x[0] - X[g][0], x[1] - X[g][1])
            ctx.claim(d.min() < slack * h + 1e-9, 'the points of an element')
            at.setdefault(g, []).append((e, np.unravel_index(int(d.argmin()), d.shape)))
    if shared:
        ctx.claim(len({key(v) for v in X}) == len(X), 'every point is exported once')
    ctx.claim(sorted(at) == list(range(len(X))), 'every point belongs to a cell')
    for f in fs:
        A, B = f.reconstruct(*grid(-1. if k0(f) else -.99))
        D = P[f.name]
        D = D if isinstance(D, (tuple, list)) else [D]
        for g, who in at.items():
            for s in range(len(B[els[0]])):
                vs = []
                for e, ind in who:
                    vs.append(B[e][s][ind])
                if k0(f) or len(vs) == 1:
                    ctx.equal(D[s][g], vs[0], 1e-7 if k0(f) else 1e-5, 'the value at a point of a %s-form' % f.k)
                elif len(who) == 2:
                    ctx.equal((D[s][g] - vs[0]) * (D[s][g] - vs[1]), 0, 1e-5, 'the value of a %s-form at a point of an edge' % f.k)


def k0(f):
    return f.k == 0


def portion(ctx, ID, layout, p, k, kw=None, n=1, small=False, tol=1e-9):
    """a portion holds exactly the points of the grid in the range, with their values"""
    m, fs, local = build(ctx, n, 2, ID, layout, p, kw or {}, [k], ['f'])
    f = fs[0]
    R = m.domain.regions.names
    G = [np.array([.3, 1]), np.array([0, .8])] if small else [np.array([0.1, .5, 1]), np.array([0, .25, .8])]
    grids = per_region(R, G)
    obj = mpisim.run(n, lambda r: local(r)[1][0]) if n > 1 else [f]
    with ctx.symbolic_code():
        if n > 1:
            obj = mpisim.run(n, lambda r: obj[r].reconstruct.discrete_field(grids))
        else:
            obj = [f.reconstruct.discrete_field(grids)]
    box = {}
    for r in R:
        box[r] = expected(m, f, r, grids[r])
    lo = min(float(np.min(box[r][0][c])) for r in R for c in (0, 1)) - .3
    hi = max(float(np.max(box[r][0][c])) for r in R for c in (0, 1)) + .3
    x0, x1, y0, y1 = (ctx.real(s, lo, hi) for s in ('x0', 'x1', 'y0', 'y1'))
    ctx.assume(x0 + .01 < x1)
    ctx.assume(y0 + .01 < y1)
    with ctx.symbolic_code():
        go = lambda r: obj[r].portion.xy_range((x0, x1), (y0, y1))
        out = mpisim.run(n, go) if n > 1 else [go(0)]
    for r in R:
        own = [o for o in out if r in o.coordinates]
        ctx.claim(len(own) <= 1, 'a region is in one process')
        X, V = box[r]
        got = {}
        if own:
            A, B = own[0].coordinates[r], own[0].values[r]
            ctx.claim(len(A) == 2 and len(B) == len(V) and all(np.shape(a) == np.shape(A[0]) for a in list(A) + list(B)), 'the shapes')
            for ind in np.ndindex(*np.shape(A[0])):
                k_ = key([A[c][ind] for c in (0, 1)])
                ctx.claim(k_ not in got, 'a point once')
                got[k_] = [b[ind] for b in B]
        n_in = 0
        for ind in np.ndindex(*X[0].shape):
            x, y = X[0][ind], X[1][ind]
            k_ = key((x, y))
            if k_ in got:
                ctx.claim((x0 <= x + tol) & (x <= x1 + tol) & (y0 <= y + tol) & (y <= y1 + tol), 'a point outside the range')
                ctx.equal(np.array(got.pop(k_)), np.array([v[ind] for v in V]), 1e-8, 'the value of a point')
            else:
                ctx.claim((x <= x0 + tol) | (x >= x1 - tol) | (y <= y0 + tol) | (y >= y1 - tol), 'a point in the range is missing')
        ctx.claim(not got, 'only points of the grid')


def increasing(ctx, dim):
    """the data of a structured grid need a grid that increases"""
    if dim == 2:
        from objects.CSCG._2d.discreteFields.scalar.main import _2dCSCG_DF_Scalar as D
    else:
        from objects.CSCG._3d.discreteDields.scalar.main import _3dCSCG_DF_Scalar as D
    m, _ = setting(dim, 'crazy', (1,) * dim, (1,) * dim, dict(c=0.))
    r = m.domain.regions.names[0]
    g = [ctx.reals('g', 3, 0, 1), np.array([.5, .6]), np.array([.5])][:dim]
    for a, b in ((0, 1), (1, 2), (0, 2)):
        ctx.assume((g[0][a] - g[0][b] > 1e-6) | (g[0][b] - g[0][a] > 1e-6))
    sh = tuple(len(a) for a in g)
    X = [np.zeros(sh)] * dim
    ok = True
    with ctx.symbolic_code():
        try:
            D(m, {r: X}, {r: [np.zeros(sh)]}, 'd', structured=True, grid={r: g})
        except AssertionError:
            ok = False
    up = (g[0][0] < g[0][1]) & (g[0][1] < g[0][2])
    ctx.claim(up if ok else ~up if hasattr(up, '__invert__') and not isinstance(up, (bool, np.bool_)) else not up,
              'a grid is accepted if and only if it increases')


HARNESSES = [
    S_('s3', C(structured, 3, 'crazy', (2, 1, 2), (2, 1, 1), dict(c=.2))),
    S_('s3-regions', C(structured, 3, 'bridge_arch_cracked', (1, 1, 1), (1, 1, 1), {}, ('0-f', '2-f'))),
    S_('s2-names', C(structured, 2, 'chp1', (2, 1), (2, 1), {}, names=['a', 'a', 'a', 'a_1'])),
    S_('s2-same', C(structured, 2, 'crazy', (2, 2), (2, 2), dict(c=.2), same=True)),
    S_('s2-mpi', C(structured, 2, 'chp1', (1, 2), (1, 2), {}, n=2), timeout=300),
    S_('s3-mpi', C(structured, 3, 'bridge_arch_cracked', (1, 1, 1), (1, 1, 1), {}, ('1-f', '3-f'), n=3), timeout=300),
    S_('u3', C(unstructured, 3, 'crazy', (2, 1, 1), (1, 2, 1), dict(c=.1))),
    S_('u3-one', C(unstructured, 3, 'crazy', (2, 1, 1), (1, 1, 1), dict(c=0.), one=True)),
    S_('u2', C(unstructured, 2, 'chp1', (1, 2), (2, 1), {})),
    S_('u2-mpi', C(unstructured, 2, 'chp1', (2, 1), (1, 1), {}, ('0-f-i', '1-f-o'), n=3), timeout=300),
    S_('u2-one', C(unstructured, 2, 'crazy', (2, 1), (1, 1), dict(c=0.), ('1-f-i',), one=True)),
    S_('f0', C(to_file, '0-f', 'crazy', (2, 1, 1), (1, 2, 1), (20, 4, 60), kw=dict(c=.1))),
    S_('f1', C(to_file, '1-f', 'crazy', (1, 2, 1), (1, 1, 2), 20, ext='mat', kw=dict(c=.1))),
    S_('f2-regions', C(to_file, '2-f', 'bridge_arch_cracked', (1, 1, 1), (1, 1, 1), (30, 3, 3), regions=(1,))),
    S_('f3-mpi', C(to_file, '3-f', 'bridge_arch_cracked', (1, 1, 1), (1, 2, 1), (3, 40, 3), regions=(2, 0), n=3), timeout=300),
    S_('f1-mpi', C(to_file, '1-f', 'bridge_arch_cracked', (1, 1, 1), (1, 1, 1), 3, ext='mat', n=2), timeout=300),
    S_('t-quad', C(tri_export, 'st8', 2, 'tq', ('0-f-i',), q=3)),
    S_('t-quad-1', C(tri_export, 'st8', 2, 'tq', ('1-f-o',), q=2, before=1)),
    S_('t-quad-2', C(tri_export, 'st8', 2, 'tq', ('2-f-i',))),
    S_('t-tri', C(tri_export, 'st8', 2, 'qt', ('0-f-o',))),
    S_('t-tri-tool', C(tri_export, 'st8', 1, 'qt', ('1-f-i', '2-f-o', '0-f-o'), tool=True)),
    S_('t-tool-mpi', C(tri_export, 'st8', 2, 'tq', ('0-f-i', '0-f-o'), q=2, tool=True, n=3, before=3), timeout=300),
    S_('p-scalar', C(portion, 'crazy', (2, 1), (2, 1), '0-f-o', dict(c=0.)), timeout=400, max_paths=800),
    S_('p-vector-mpi', C(portion, 'crazy', (2, 1), (1, 1), '1-f-i', dict(c=0., bounds=((0, 2), (-1, 1))), n=2), timeout=400, max_paths=800),
    S_('p-regions-mpi', C(portion, 'rectangle', (1, 1), (1, 1), '2-f-o', dict(p_UL=(0, 0), width=2, length=1, region_layout=(2, 1)), n=3, small=True), timeout=300, max_paths=900),
    S_('p-regions-full', C(portion, 'rectangle', (1, 1), (1, 1), '2-f-o', dict(p_UL=(0, 0), width=2, length=1, region_layout=(2, 1)), n=3), timeout=600, max_paths=1500, tier='thorough'),
    S_('grid-2d', C(increasing, 2)),
    S_('grid-3d', C(increasing, 3)),
    S_('s3-deep', C(structured, 3, 'bridge_arch_cracked', (2, 1, 2), (2, 1, 1), {}, n=3), tier='thorough', timeout=800),
    S_('u3-deep', C(unstructured, 3, 'crazy', (2, 2, 1), (2, 1, 2), dict(c=.1), n=3), tier='thorough', timeout=800),
    S_('u2-deep', C(unstructured, 2, 'chp2', (2, 1), (2, 1), {}, n=2), tier='thorough', timeout=800),
    S_('f-deep', C(to_file, '2-f', 'crazy', (2, 1, 2), (2, 1, 1), (200, 40, 90), ext='mat', kw=dict(c=.1), n=3),
       C(to_file, '0-f', 'bridge_arch_cracked', (2, 1, 1), (1, 2, 1), 60, regions=(3, 1), n=2), tier='thorough', timeout=800),
    S_('t-deep-0', C(tri_export, 'st16', 2, 'tq', ('0-f-i',), q=4), tier='thorough', timeout=800),
    S_('t-deep-2', C(tri_export, 'st16', 3, 'qt', ('2-f-i',), n=2), tier='thorough', timeout=800),
    S_('t-deep-tool', C(tri_export, 'st16', 2, 'tq', ('1-f-i', '1-f-o', '2-f-o'), tool=True), tier='thorough', timeout=800),
]
