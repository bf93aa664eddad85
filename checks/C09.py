"""C09: mesh connectivity agrees with the geometry."""
import itertools
import numpy as np
from engine.harness import H
from checks.common import *

BOUNDS = ('every point of every element side, edge and node (symbolic parameters); every shipped 3-D and 2-D domain with '
          'default and changed parameters, equally and unequally spaced layouts of up to 30 elements, the offered element '
          'distributions, periodic meshes; the shipped and generated triangular meshes; one process.')
ASSUMPTIONS = ['domain parameters are concrete (listed) values', 'two sides (edges, nodes) are the same iff all their '
               'points coincide, modulo the period on periodic domains; on the cracked bridge geometric distinctness of '
               'coincident crack sides is not demanded']

SIDES = {'N': (0, -1.), 'S': (0, 1.), 'W': (1, -1.), 'E': (1, 1.), 'B': (2, -1.), 'F': (2, 1.)}
OPP = dict(zip('NSWEBFUDLR', 'SNEWFBDURL'))
CORNER_EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
CORNERS = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']
EDGES2 = {'U': (0, -1.), 'D': (0, 1.), 'L': (1, -1.), 'R': (1, 1.)}
TOL = 1e-8


def _v(z):
    return np.asarray(z).reshape(-1)[0]


def _a(v):
    a = np.empty(1, dtype=float if isinstance(v, (int, float)) else object)
    a[0] = v
    return a


class Geo(object):
    """points of elements, compared modulo the period"""
    def __init__(self, ctx, mesh, dim, period):
        self.ctx, self.mesh, self.dim = ctx, mesh, dim
        self.L = period or {}
        self.memo = {}

    def point(self, e, *rst):
        """element e at reference coordinates (constants or symbolic)"""
        key = (e,) + tuple(r if isinstance(r, (int, float)) else id(r) for r in rst)
        if key not in self.memo:
            with self.ctx.symbolic_code():
                m = self.mesh.elements[e].coordinate_transformation.mapping(*[_a(r) for r in rst])
            self.memo[key] = [_v(c) for c in m]
        return self.memo[key]

    def num(self, e, *rst):
        return [float(_v(c)) for c in
                self.mesh.elements[e].coordinate_transformation.mapping(*[np.array([float(r)]) for r in rst])]

    def shift(self, a, b):
        """whole periods between two concrete points (0 when they are not a whole number of periods apart)"""
        out = [0.] * self.dim
        for k, L in self.L.items():
            out[k] = round((a[k] - b[k]) / L) * L
        return out

    def same(self, p, q, sh, label, tol=TOL):
        for k in range(self.dim):
            self.ctx.equal(p[k] - q[k], sh[k] + 0. * p[k], tol, label)

    def value(self, p, c):
        """a generic function of position (periodic when the domain is)"""
        out = 0
        for k in range(self.dim):
            if k in self.L:
                w = 2 * np.pi / self.L[k]
                out = out + c[k] * np.sin(w * p[k]) + c[k + 3] * np.cos(w * p[k])
            else:
                out = out + c[k] * p[k]
        return out


def _layout(ctx, mesh, dim, layout):
    """region/element numbering, spacing"""
    seen = {}
    ALL = mesh.___PRIVATE_generate_ALL_element_global_numbering___()
    for rn in mesh.domain.regions.names:
        lay = layout[rn] if isinstance(layout, dict) else layout
        if isinstance(lay, int):
            lay = [lay] * dim
        one = mesh.___PRIVATE_generate_element_global_numbering___(number_what=rn)
        ctx.claim(np.array_equal(one, ALL[rn]), 'numbering of one region is that of all')
        sizes = []
        for ax in lay:
            w = np.ones(ax) if isinstance(ax, int) else np.array(ax, dtype=float)
            sizes.append(w / w.sum())
        ctx.claim(np.shape(one) == tuple(len(s) for s in sizes), 'shape of the region numbering')
        ctx.claim(tuple(mesh.elements.layout[rn]) == tuple(len(s) for s in sizes), 'element layout')
        for ix in np.ndindex(*[len(s) for s in sizes]):
            e = int(one[ix])
            ctx.claim(e not in seen, 'no element number twice')
            seen[e] = (rn, ix)
            el = mesh.elements[e]
            got = mesh.do.find.region_name_and_local_indices_of_element(e)
            ctx.claim(got[0] == rn and tuple(int(k) for k in got[1]) == ix, 'region and local indices of an element')
            ctx.claim(mesh.do.find.region_name_of_element(e) == rn and el.in_region == rn, 'region of an element')
            if dim == 3:
                ctx.claim(tuple(int(k) for k in el.region_indices) == ix, 'region indices of an element')
            o, d = mesh.do.find.reference_origin_and_size_of_element(e)
            sp = el.spacing
            for k in range(dim):
                lo = sizes[k][:ix[k]].sum()
                ctx.claim(abs(o[k] - lo) < 1e-10 and abs(d[k] - sizes[k][ix[k]]) < 1e-10, 'origin and size of an element')
                ctx.claim(abs(sp[k][0] - lo) < 1e-10 and abs(sp[k][1] - lo - sizes[k][ix[k]]) < 1e-10,
                          'spacing of an element')
            ctx.claim(e in mesh.elements and el.i == e and mesh.do.find.slave_of_element(e) == 0, 'element is local')
    n = len(seen)
    ctx.claim(sorted(seen) == list(range(n)), 'elements are numbered without gaps')
    ctx.claim(mesh.elements.global_num == n and mesh.elements.num == n and len(mesh.elements) == n and
              sorted(mesh.elements) == list(range(n)) and sorted(mesh.elements.indices) == list(range(n)) and
              n not in mesh.elements, 'number of elements')
    ctx.claim(sorted(mesh.elements.in_regions) == sorted(mesh.domain.regions.names), 'elements in regions')
    return seen


def _corner_finds(ctx, mesh, dim):
    for rn in mesh.domain.regions.names:
        one = mesh.___PRIVATE_generate_element_global_numbering___(number_what=rn)
        names = list(mesh.domain.regions[rn]._corner_name_to_index_dict_())
        for cn in names:
            ix = [None] * dim
            for ch in cn:
                a, s = (SIDES if dim == 3 else EDGES2)[ch]
                ix[a] = 0 if s < 0 else -1
            ctx.claim(mesh.elements.do.find.element_at_region_corner(rn, cn) == one[tuple(ix)],
                      'element at a region corner')
        if dim == 3:
            for s, (a, v) in SIDES.items():
                ctx.claim(np.array_equal(mesh.do.find.element_attach_to_region_side(rn, s),
                                         np.take(one, 0 if v < 0 else -1, axis=a)), 'elements at a region side')


def _boundaries(ctx, geo, mesh, dim, seen, box, t, names):
    """element map, mutual neighbours, boundary names; -> {boundary: [(e, side)]}"""
    SD = SIDES if dim == 3 else EDGES2
    order = 'NSWEBF' if dim == 3 else 'UDLR'
    MAP = mesh.elements.map
    onb = {}
    inp = mesh.domain._domain_input_
    brs = inp.boundary_region_sides if dim == 3 else inp.boundary_region_edges
    for e in mesh.elements:
        ctx.claim(len(MAP[e]) == 2 * dim, 'an element has 2*dim sides')
        el = mesh.elements[e]
        if hasattr(el, 'position'):
            ctx.claim(list(el.position) == list(MAP[e]), 'position of an element')
        ins = True
        for j, s in enumerate(order):
            a, v = SD[s]
            o = MAP[e][j]
            x = list(t[:a]) + [v] + list(t[a + 1:])
            if isinstance(o, str):
                ins = False
                onb.setdefault(o, []).append((e, s))
                rn, ix = seen[e]
                org, dl = mesh.do.find.reference_origin_and_size_of_element(e)
                at = org[a] if v < 0 else 1 - org[a] - dl[a]
                decl = brs[o] if isinstance(brs[o], (list, tuple)) else [brs[o]]
                ctx.claim(abs(at) < 1e-10 and rn + '-' + s in decl, 'a boundary side lies on its named boundary')
                if box and o in box and len(box[o]) == 3:
                    p = geo.point(e, *x)
                    (cx, cy), R = box[o][1:]
                    ctx.equal((p[0] - cx) ** 2 + (p[1] - cy) ** 2, R * R + 0. * p[0], TOL,
                              'a circular boundary has the radius of the domain')
                elif box and o in box:
                    ax, val = box[o]
                    p = geo.point(e, *x)
                    ctx.equal(p[ax], val + 0. * p[ax], TOL, 'a boundary side has the coordinate of its boundary')
            else:
                ctx.claim(MAP[o][order.index(OPP[s])] == e, 'being neighbours is mutual')
                y = list(t[:a]) + [-v] + list(t[a + 1:])
                mid, dim_ = [0.] * dim, [0.] * dim
                mid[a], dim_[a] = v, -v
                sh = geo.shift(geo.num(e, *mid), geo.num(o, *dim_))
                geo.same(geo.point(e, *x), geo.point(o, *y), sh, 'neighbouring sides are the same side')
        ctx.claim(el.whether.internal == ins, 'whether an element is internal')
    B = mesh.boundaries
    ctx.claim(set(B.names) == set(onb), 'names of the mesh boundaries')
    if names is not None:
        ctx.claim(set(B.names) == set(names), 'expected mesh boundaries')
    sides = B.range_of_element_sides if dim == 3 else B.range_of_element_edges
    inv = set()
    for bn in onb:
        ctx.claim(sorted(sides[bn]) == sorted(str(e) + s for e, s in onb[bn]), 'element sides on a boundary')
        ctx.claim(set(B.range_of_elements[bn]) == {e for e, s in onb[bn]}, 'elements on a boundary')
        inv |= {e for e, s in onb[bn]}
        TM = mesh.trace.elements.map
        ctx.claim(sorted(B.range_of_trace_elements[bn]) == sorted(TM[e][order.index(s)] for e, s in onb[bn]),
                  'trace elements on a boundary')
        if dim == 3:
            ctx.claim(sorted(B[bn].element_sides) == sorted(sides[bn]) and
                      sorted(B[bn].trace_elements) == sorted(B.range_of_trace_elements[bn]) and B[bn].name == bn,
                      'a boundary object')
            ctx.claim(set(B.range_of_region_sides[bn]) == set(brs[bn] if isinstance(brs[bn], (list, tuple))
                                                              else [brs[bn]]), 'region sides of a boundary')
    ctx.claim(set(B.involved_elements) == inv, 'elements at boundaries')
    st = mesh.elements.statistic
    if 'amount of internal mesh elements' in st:
        ctx.claim(st['amount of boundary mesh elements'] == len(inv) and
                  st['amount of internal mesh elements'] == mesh.elements.num - len(inv), 'element statistic')
    return onb


def _is_periodic(geo, e, s, o):
    SD = SIDES if geo.dim == 3 else EDGES2
    a, v = SD[s]
    x, y = [0.] * geo.dim, [0.] * geo.dim
    x[a], y[a] = v, -v
    return any(abs(k) > 1e-9 for k in geo.shift(geo.num(e, *x), geo.num(o, *y)))


def _trace(ctx, geo, mesh, dim, t, c, exact):
    """trace elements"""
    SD = SIDES if dim == 3 else EDGES2
    order = 'NSWEBF' if dim == 3 else 'UDLR'
    MAP, T = mesh.elements.map, mesh.trace.elements
    where = {}
    for e in mesh.elements:
        for j, s in enumerate(order):
            where.setdefault(T.map[e][j], []).append((e, s))
    n = len(where)
    ctx.claim(sorted(where) == list(range(n)) and T.global_num == n and T.num == n and len(T) == n and
              sorted(T) == list(range(n)), 'trace elements are numbered without gaps')
    reps = []
    for k in range(n):
        te = T[k]
        W = where[k]
        e, s = te.CHARACTERISTIC_element, te.CHARACTERISTIC_side if dim == 3 else te.CHARACTERISTIC_edge
        a, v = SD[s]
        x = list(t[:a]) + [v] + list(t[a + 1:])
        reps.append(geo.value(geo.point(e, *x), c))
        j = order.index(s)
        o = MAP[e][j]
        bd = isinstance(o, str)
        want = {(e, s)} if bd else {(e, s), (o, OPP[s])}
        ctx.claim(set(W) == want and len(W) == len(want), 'a trace element is where two sides meet')
        other = o if bd else str(o) + OPP[s]
        ctx.claim(te.i == k and te.CHARACTERISTIC_position == str(e) + s and te.NON_CHARACTERISTIC_position == other and
                  set(te.positions) == {str(e) + s, other}, 'positions of a trace element')
        ctx.claim(te.on_mesh_boundary == (o if bd else None) and te.whether.on_mesh_boundary == bd,
                  'whether a trace element is on the boundary')
        ctx.claim(te.whether.shared_by_cores is False and te.shared_with_core is None, 'one core')
        ctx.claim(te.CHARACTERISTIC_region == mesh.do.find.region_name_of_element(e), 'region of a trace element')
        ctx.claim(te.normal_direction == {0: 'NS', 1: 'WE', 2: 'BF'}[a] if dim == 3 else
                  te.normal_direction == {0: 'UD', 1: 'LR'}[a], 'normal direction')
        per = not bd and _is_periodic(geo, e, s, o)
        ctx.claim(bool(te.whether.on_periodic_boundary) == per, 'whether a trace element is on a periodic boundary')
        sp, es = te.spacing, mesh.elements[e].spacing
        for d in range(dim):
            ctx.claim(np.allclose(sp[d], es[d][0 if v < 0 else 1] if d == a else es[d]), 'spacing of a trace element')
        two = [tuple(t[d] for d in range(dim) if d != a)][0]
        for (e_, s_) in W:
            if dim == 3:
                with ctx.symbolic_code():
                    m = te.coordinate_transformation.mapping(*[_a(q) for q in two], from_element=e_, side=s_)
                a_, v_ = SD[s_]
                y = list(t[:a_]) + [v_] + list(t[a_ + 1:])
                geo.same([_v(q) for q in m], geo.point(e_, *y), [0.] * 3, 'mapping of a trace element')
        if dim == 2:
            with ctx.symbolic_code():
                m = te.coordinate_transformation.mapping(_a(two[0]))
            geo.same([_v(q) for q in m], geo.point(e, *x), [0.] * 2, 'mapping of a trace element')
        if dim == 3:
            side = mesh.elements[e].sides[s]
            ctx.claim(side.trace_element.i == k if hasattr(side.trace_element, 'i') else side.trace_element == k,
                      'trace element of an element side')
    if exact:
        ctx.all_distinct(np.array(reps, dtype=object), 'different trace elements are different sides')
    return where


def _pairs(n, cap):
    P = list(itertools.combinations(range(n), 2))
    return P[::max(1, len(P) // cap)]


def _trace_finds(ctx, mesh, where):
    T, E, N = mesh.trace.elements, mesh.edge.elements, mesh.node.elements
    f = T.do.find
    for k, W in where.items():
        want = set()
        wn = set()
        for e, s in W:
            want |= {E.map[e][i] for i, ce in enumerate(CORNER_EDGES) if s in ce}
            wn |= {N.map[e][i] for i, cn in enumerate(CORNERS) if s in cn}
        ctx.claim(set(f.edge_elements_surrounding_element(k)) == want and
                  set(E.do.find.elements_surrounding_trace_element(k)) == want, 'edges around a trace element')
        ctx.claim(set(f.node_elements_of_element(k)) == wn, 'nodes of a trace element')
    for i, j in _pairs(len(where), 250):
        both = {e for e, s in where[i]} & {e for e, s in where[j]}
        g = f.mesh_element_shared_by_elements(i, j)
        ctx.claim(g in both if both else g is None, 'mesh element shared by two trace elements')
        g2 = mesh.elements.do.find.element_shared_by_trace_elements(i, j)
        ctx.claim(g2 in both if both else g2 is None, 'mesh element shared by two trace elements')
    for i, j in _pairs(mesh.elements.global_num, 150):
        want = {k for k, W in where.items() if {e for e, s in W} == {i, j}}
        ctx.claim(set(f.element_between_two_mesh_elements(i, j)) == want, 'trace elements between two elements')
        ctx.claim(set(mesh.elements.do.find.trace_element_between_two_elements(i, j)) == want,
                  'trace elements between two elements')


def _edges_nodes(ctx, geo, mesh, tsym, c, exact, onb):
    MAP, TM = mesh.elements.map, mesh.trace.elements.map
    # ---- which (element, corner) are one, from the element map: closure of "glued across a side"
    for what, names, EL in (('edge', CORNER_EDGES, mesh.edge.elements), ('node', CORNERS, mesh.node.elements)):
        where = {}
        for e in mesh.elements:
            for j, cn in enumerate(names):
                where.setdefault(EL.map[e][j], []).append((e, cn))
        n = len(where)
        ctx.claim(sorted(where) == list(range(n)) and EL.global_num == n and EL.num == n and
                  sorted(EL) == list(range(n)), what + ' elements are numbered without gaps')
        # entities glued across sides have one number
        for e in mesh.elements:
            for s in 'NSWEBF':
                o = MAP[e]['NSWEBF'.index(s)]
                if isinstance(o, str):
                    continue
                for j, cn in enumerate(names):
                    if s in cn:
                        on = cn.replace(s, OPP[s])
                        ctx.claim(EL.map[e][j] == EL.map[o][names.index(on)], what + ' shared across a side')
        reps = []
        for k in range(n):
            ee = EL[k]
            W = where[k]
            pts = []
            for e, cn in W:
                x = [tsym] * 3
                z = [0.] * 3
                for ch in cn:
                    a, v = SIDES[ch]
                    x[a] = z[a] = v
                pts.append((geo.point(e, *x), geo.num(e, *z)))
            per = False
            for (p, pn) in pts[1:]:
                sh = geo.shift(pts[0][1], pn)
                per = per or any(abs(q) > 1e-9 for q in sh)
                geo.same(pts[0][0], p, sh, 'all positions of one %s element are one' % what)
            reps.append(geo.value(pts[0][0], c))
            if len(W) > 1:
                ctx.claim(bool(ee.whether.on_periodic_boundary) == per, 'whether a periodic %s element' % what)
            bns = {MAP[e]['NSWEBF'.index(ch)] for e, cn in W for ch in cn
                   if isinstance(MAP[e]['NSWEBF'.index(ch)], str)}
            ctx.claim(set(ee.on_mesh_boundaries) == bns, 'mesh boundaries of a %s element' % what)
            ctx.claim(bool(ee.whether.on_mesh_boundary) == bool(bns), 'whether a %s element is on a boundary' % what)
            elpos = [q for q in ee.positions if q[0].isdigit()]
            ctx.claim(sorted(elpos) == sorted(str(e) + cn for e, cn in W), 'positions of a %s element' % what)
            ctx.claim({q for q in ee.positions if not q[0].isdigit()} == bns, 'boundary positions of a %s element' % what)
            ctx.claim(set(ee.shared_by_mesh_elements) == {e for e, cn in W}, 'elements sharing a %s element' % what)
            cp = ee.CHARACTERISTIC_position
            ce = ee.CHARACTERISTIC_element
            cc = ee.CHARACTERISTIC_corner if what == 'node' else ee.CHARACTERISTIC_corner_edge
            ctx.claim(cp == str(ce) + cc and (ce, cc) in W, 'characteristic position of a %s element' % what)
            ctx.claim(ee.CHARACTERISTIC_region == mesh.do.find.region_name_of_element(ce), 'region of a %s' % what)
            if what == 'edge':
                miss = [a for a in range(3) if not any(SIDES[ch][0] == a for ch in W[0][1])][0]
                ctx.claim(ee.direction == ('NS', 'WE', 'BF')[miss], 'direction of an edge element')
            for (e, cn), (p, pn) in zip(W, pts):
                with ctx.symbolic_code():
                    if what == 'node':
                        m = ee.coordinate_transformation.mapping(from_element=e, corner=cn)
                    else:
                        m = ee.coordinate_transformation.mapping(*[_a(tsym)] * 3, from_element=e, corner_edge=cn)
                geo.same([_v(q) for q in m], p, [0.] * 3, 'mapping of a %s element' % what)
            # ---- attached entities
            te = {TM[e]['NSWEBF'.index(ch)] for e, cn in W for ch in cn}
            F = EL.do.find.trace_elements_attached_to_element(k)
            ctx.claim(set(F) == te and len(F) == len(te), 'trace elements attached to a %s' % what)
            T = mesh.trace.elements.do.find
            F = T.elements_attached_to_edge_element(k) if what == 'edge' else T.elements_attached_to_node_element(k)
            ctx.claim(set(F) == te, 'trace elements attached to a %s' % what)
            if what == 'node':
                want = {mesh.edge.elements.map[e][CORNER_EDGES.index(x)] for e, cn in W
                        for x in (cn[:2], cn[0] + cn[2], cn[1:])}
                ctx.claim(set(EL.do.find.edge_elements_attached_to_element(k)) == want, 'edges attached to a node')
                ctx.claim(set(mesh.edge.elements.do.find.elements_attached_to_node_element(k)) == want,
                          'edges attached to a node')
        if exact:
            ctx.all_distinct(np.array(reps, dtype=object), 'different %s elements are apart' % what)


def m3(ctx, ID, layout, kw, period=None, box=None, names=None, exact=True, EDM=None, parts='STE'):
    mesh = mesh3(ID, layout, EDM=EDM, **kw)
    lay = dict(layout) if isinstance(layout, dict) else list(layout)
    t = [ctx.real(n, -1., 1.) for n in ('r', 's', 'q')]
    c = ctx.reals('c', 6)
    geo = Geo(ctx, mesh, 3, period)
    seen = _layout(ctx, mesh, 3, lay)
    _corner_finds(ctx, mesh, 3)
    onb = _boundaries(ctx, geo, mesh, 3, seen, box, t, names)
    if 'T' in parts:
        where = _trace(ctx, geo, mesh, 3, t, c, exact)
    if 'E' in parts:
        _edges_nodes(ctx, geo, mesh, t[0], c, exact, onb)
        _trace_finds(ctx, mesh, where)


def m2(ctx, ID, layout, kw, period=None, box=None, names=None, exact=True, EDM=None):
    mesh = mesh2(ID, layout, EDM=EDM, **kw)
    lay = dict(layout) if isinstance(layout, dict) else list(layout)
    t = [ctx.real(n, -1., 1.) for n in ('r', 's')]
    c = ctx.reals('c', 6)
    geo = Geo(ctx, mesh, 2, period)
    seen = _layout(ctx, mesh, 2, lay)
    _corner_finds(ctx, mesh, 2)
    _boundaries(ctx, geo, mesh, 2, seen, box, t, names)
    _trace(ctx, geo, mesh, 2, t, c, exact)


def stack(ctx, dim, ID, layout, kw, EDM=None):
    """element-wise data stacked region by region keeps every value at its place"""
    mesh = (mesh3 if dim == 3 else mesh2)(ID, layout, EDM=EDM, **kw)
    sh = (2, 1, 2)[:dim]
    n = mesh.elements.global_num
    d = ctx.reals('v', (n,) + sh)
    d2 = ctx.reals('w', (n,) + sh[::-1])
    with ctx.symbolic_code():
        S = mesh.do.regionwsie_stack(d)
        S2, S3 = mesh.do.regionwsie_stack(d, d2)
    for data, St, s in ((d, S, sh), (d, S2, sh), (d2, S3, sh[::-1])):
        for rn in mesh.domain.regions.names:
            num = mesh.___PRIVATE_generate_element_global_numbering___(number_what=rn)
            for ix in np.ndindex(*num.shape):
                sl = tuple(slice(i * k, (i + 1) * k) for i, k in zip(ix, s))
                ctx.equal(St[rn][sl], data[num[ix]], TOL, 'stacked data is at its place')


def tr(ctx, ID, kw, box=None):
    """triangular mesh"""
    fc = tri(ID, 1, **kw)
    mesh = fc.mesh if hasattr(fc, 'mesh') else fc('0-f-i').mesh
    t = ctx.real('t', -1., 1.)
    c = ctx.reals('c', 6)
    geo = Geo(ctx, mesh, 2, None)
    MAP = mesh.elements.map
    n = mesh.elements.num.elements
    ctx.claim(n == mesh.elements.num.global_elements == mesh.elements.num.cells == mesh.elements.num.global_cells and
              sorted(MAP) == list(range(n)) and sorted(mesh.elements.indices) == list(range(n)), 'number of elements')
    onb = {}
    reps = []
    for e in range(n):
        el = mesh.elements[e]
        V = np.array(el.coordinates)
        # orientation of the local edges: by the vertices
        P = {0: V[0], 1: V[1], 2: V[2]}
        for k, (i, j) in enumerate(((0, 1), (0, 2), (2, 1))):
            for q, w in ((-1., i), (1., j)):
                g = geo.num(e, *_edge(k, q))
                ctx.claim(np.allclose(g, P[w], atol=1e-9), 'edges join the vertices they are said to')
            m = MAP[e][k]
            p = geo.point(e, *_edge(k, t))
            if m and m[0].isdigit():
                sgn = '+' if '+' in m else '-'
                o, ko = (int(x) for x in m.split(sgn))
                ctx.claim(o != e and MAP[o][ko] == str(e) + sgn + str(k), 'being neighbours is mutual')
                if (o, ko) > (e, k):
                    reps.append(geo.value(p, c))
                geo.same(p, geo.point(o, *_edge(ko, t if sgn == '+' else -t)), [0., 0.],
                         'neighbouring edges are the same edge')
            else:
                ctx.claim(m in mesh.boundaries.names, 'an edge is on a named boundary or shared')
                onb.setdefault(m, []).append((e, k))
                reps.append(geo.value(p, c))
                if box and m in box:
                    ax, val = box[m]
                    ctx.equal(p[ax], val + 0. * p[ax], TOL, 'a boundary edge has the coordinate of its boundary')
    R = mesh.boundaries.range_of_element_edge
    ctx.claim(set(R) == set(mesh.boundaries.names), 'boundary names')
    for bn in R:
        ctx.claim(sorted(tuple(q) for q in R[bn]) == sorted(onb.get(bn, [])), 'element edges on a boundary')
    if box:
        ctx.claim(set(onb) == set(box), 'boundaries with edges')
    # both edges at one parameter: make the comparison independent of the direction
    mid = [geo.value(geo.num(e, *_edge(k, 0.)), c) for e in range(n) for k in range(3)
           if not (MAP[e][k][:1].isdigit() and
                   tuple(int(x) for x in MAP[e][k].replace('-', '+').split('+')) < (e, k))]
    ctx.all_distinct(np.array(mid, dtype=object), 'different edges are apart')


def _edge(k, q):
    """reference coordinates of local edge k of a triangle at parameter q"""
    return ((1., q), (-1., q), (q, 1.))[k]


def _box3(b):
    return dict(North=(0, b[0][0]), South=(0, b[0][1]), West=(1, b[1][0]), East=(1, b[1][1]), Back=(2, b[2][0]),
                Front=(2, b[2][1]))


def _box2(b):
    return dict(Upper=(0, b[0][0]), Down=(0, b[0][1]), Left=(1, b[1][0]), Right=(1, b[1][1]))


B3 = ((0.5, 2.), (-1., 1.), (0., 3.))
B2 = ((0.5, 2.), (-1., 1.))
N3 = ('North', 'South', 'West', 'East', 'Back', 'Front')


def _cub(p, length, width, height):
    """cuboid from its North-West-Back corner (width: x, length: y, height: z)"""
    return _box3(((p[0], p[0] + width), (p[1], p[1] + length), (p[2], p[2] + height)))


def _bridge(L=4, w=1, h=1.5, r=2.5):
    al = (r ** 2 - L ** 2 / 4) ** 0.5
    return dict(Left_Floor=(0, 0.), Right_Floor=(0, 0.), Back=(2, 0.), Front=(2, w), Left_Wall=(1, 0.), Right_Wall=(1, L),
                Crack=(1, L / 2), Bottom=('o', (h + al, L / 2), r))


def _plate(hx, hy, r, x='xy'):
    b = dict(Internal=('o', (0, 0), r))
    if x == 'xy':
        b.update(Upper=(1, hy / 2), Down=(1, -hy / 2), Left=(0, -hx / 2), Right=(0, hx / 2))
    else:
        b.update(Upper=(0, -hx / 2), Down=(0, hx / 2), Left=(1, -hy / 2), Right=(1, hy / 2))
    return b


def _channel(h, r, li, lo):
    return dict(Internal=('o', (0, 0), r), Upper=(1, h / 2), Down=(1, -h / 2), Left=(0, -h / 2 - li), Right=(0, h / 2 + lo))


def h3(name, layout, ID='crazy', tier='quick', timeout=250, **k):
    kw = k.pop('kw', {})
    b = k.pop('box', None)
    return H('3D ' + name, m3, tier, timeout=timeout, ID=ID, layout=layout, kw=kw, box=b,
             names=k.pop('names', tuple(b) if b else None), **k)


def h2(name, layout, ID='crazy', tier='quick', timeout=250, **k):
    kw = k.pop('kw', {})
    b = k.pop('box', None)
    return H('2D ' + name, m2, tier, timeout=timeout, ID=ID, layout=layout, kw=kw, box=b,
             names=k.pop('names', tuple(b) if b else None), **k)


U2 = dict(Upper=(0, 0.), Down=(0, 1.), Left=(1, 0.), Right=(1, 1.))
S2 = dict(Upper=(0, -1.), Down=(0, 1.), Left=(1, -1.), Right=(1, 1.))
HARNESSES = [
    h3('crazy', ([1, 2], 3, [2, 1]), kw=dict(c=0.15, bounds=B3), box=_box3(B3)),
    h3('one element', (1, 1, 1), kw=dict(c=0.1)),
    h3('two elements', (1, 1, 2), kw=dict(c=0, bounds=B3), box=_box3(B3)),
    h3('row', (4, 1, 1), kw=dict(c=0, bounds=B3), box=_box3(B3)),
    h3('chaotic', (2, 3, 3), kw=dict(c=0, bounds=B3), box=_box3(B3), EDM='chaotic'),
    h3('periodic', (2, [1, 2], 3), ID='crazy_periodic', kw=dict(c=0.05, bounds=B3), names=(),
       period={0: 1.5, 1: 2., 2: 3.}),
    h3('periodic cube', (2, 2, 2), ID='crazy_periodic', kw=dict(c=0., bounds=B3), names=(), period={0: 1.5, 1: 2., 2: 3.}),
    h3('bridge', (1, 2, 1), ID='bridge_arch_cracked', exact=False, box=_bridge()),
    h3('bridge changed', ([1, 2], 1, 2), ID='bridge_arch_cracked', exact=False, box=_bridge(3, 2, 1.25, 2.),
       kw=dict(length=3, w=2, h=1.25, r=2., d=0.3)),
    h3('psc', (3, 2, [1, 2]), ID='psc', kw=dict(L=3, w=1.5, h=0.5), period={0: 3.}, names=('wYm', 'wYp', 'wZm', 'wZp')),
    h3('LDC', ([1, 2], 2, [2, 1, 1]), ID='LDC', kw=dict(L=1.5, w=0.7, h=2), names=('WALL', 'LID')),
    h3('ct', (2, [1, 2], 1), ID='ct', kw=dict(c=0.1)),
    h3('cuboid', (1, [2, 1], 1), ID='cuboid', box=_cub((-1, 0.5, 2), 2, 0.5, 3),
       kw=dict(p_NWB=(-1, 0.5, 2), length=2, width=0.5, height=3)),
    h3('cuboid regions', (1, 1, [1, 2]), ID='cuboid', box=_cub((0, 0, 0), 1, 1, 1), kw=dict(region_layout=(3, 1, 2))),
    h3('cuboid periodic', (1, 1, 2), ID='cuboid_periodic', names=(), period={0: 1., 1: 1., 2: 1.}),
    h3('pwc', (3, 2, 2), ID='pwc', kw=dict(L=3, w=1.5, h=0.5), period={0: 3., 1: 1.5}, names=('wZm', 'wZp')),
    h2('crazy', ([1, 2], [3, 1, 1]), kw=dict(c=0.15, bounds=B2), box=_box2(B2)),
    h2('one element', (1, 1), kw=dict(c=0.1)),
    h2('row', (1, 4), kw=dict(c=0.1, bounds=B2), box=_box2(B2)),
    h2('chaotic', (4, 3), kw=dict(c=0.1, bounds=B2), box=_box2(B2), EDM='chaotic'),
    h2('periodic', (3, [1, 2]), ID='crazy_periodic', kw=dict(c=0.05, bounds=B2), names=(), period={0: 1.5, 1: 2.}),
    h2('rectangle', ([1, 2], 2), ID='rectangle', box=U2),
    h2('rectangle regions', ([1, 2], 1), ID='rectangle', box=dict(Upper=(0, 1.), Down=(0, 3.), Left=(1, -1.), Right=(1, 2.)),
       kw=dict(p_UL=(1, -1), width=2, length=3, region_layout=(3, 2))),
    h2('rectangle periodic', (1, 2), ID='rectangle_periodic', names=(), period={0: 1., 1: 1.}),
    h2('quadrangle', (2, [1, 2]), ID='quadrangle', names=('Upper', 'Down', 'Left', 'Right')),
    h2('bcr', (2, [1, 2]), ID='bcr', names=('Upper', 'Down', 'Left', 'Right')),
    h2('chp1', (2, [1, 2]), ID='chp1', box=_plate(1.5, 1.5, 0.5)),
    h2('chp1 changed', (1, 2), ID='chp1', kw=dict(hx=2, hy=3, r=0.25), box=_plate(2, 3, 0.25)),
    h2('chp2', (2, [1, 2]), ID='chp2', box=_plate(2, 2, 0.5, 'yx')),
    h2('chp2 changed', (1, 1), ID='chp2', kw=dict(hx=2, hy=3, r=0.25), box=_plate(2, 3, 0.25, 'yx')),
    h2('cic', (1, [1, 2]), ID='cic', box=_channel(1.5, 0.5, 0.75, 2.25)),
    h2('cic changed', (2, 1), ID='cic', kw=dict(h=2., r=0.25, li=1., lo=3.), box=_channel(2., 0.25, 1., 3.)),
    h2('triangle_test', (2, 2), ID='triangle_test', exact=False),
    H('3D stack', stack, dim=3, ID='cuboid', layout=(1, 1, [1, 2]), kw=dict(region_layout=(2, 1, 2)), EDM='chaotic'),
    H('2D stack', stack, dim=2, ID='chp1', layout=(1, 2), kw={}),
    H('triangles square', tr, ID='square', kw=dict(K=3), box=S2),
    H('triangles rand0', tr, ID='rand0', kw={}, box=U2),
    H('triangles test0', tr, ID='test0', kw={}),
    H('triangles st4', tr, ID='st4', kw={}, timeout=300),
    h3('crazy 3x3x3', (3, 3, [1, 2, 1]), kw=dict(c=0.1, bounds=B3), box=_box3(B3), tier='thorough', timeout=800),
    h3('periodic 3x3x3', (3, 3, 3), ID='crazy_periodic', kw=dict(c=0.05, bounds=B3), names=(),
       period={0: 1.5, 1: 2., 2: 3.}, tier='thorough', timeout=800),
    h3('cuboid 2x2x2 regions', (2, 1, 1), ID='cuboid', box=_cub((0, 0, 0), 1, 1, 1), kw=dict(region_layout=(2, 2, 2)),
       tier='thorough', timeout=800, EDM='chaotic'),
    h3('bridge fine', (2, 2, 2), ID='bridge_arch_cracked', exact=False, box=_bridge(), tier='thorough', timeout=800),
    h2('cic fine', (3, [1, 2, 1]), ID='cic', box=_channel(1.5, 0.5, 0.75, 2.25), tier='thorough', timeout=800),
    H('triangles test2', tr, 'thorough', ID='test2', kw={}, timeout=800),
]
