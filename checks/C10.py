"""C10: the elements are partitioned over the processes, and the mesh does not depend on how."""
import contextlib
import itertools
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.common import mesh2, mesh3, space2, space3, fc2, fc3, tri

BOUNDS = ('1..8 (thorough: ..12) simulated processes; symbolic element counts per region up to 10^6 (distribution), symbolic sizes of '
          'every process range and a symbolic element number (owner search), every distribution of the '
          'elements (whole meshes, up to 6 elements), symbolic reference points for the geometry.')
ASSUMPTIONS = ['several processes are simulated in one Python process (engine/mpisim.py): control changes hands at '
               'communication calls only, in rank order, and sends are buffered; other schedules of the same messages '
               'are not explored']


class Rank(object):
    """the module names of rank r of n, without communication"""

    def __init__(self, r, n, *mods):
        self.new = dict(RANK=r, SIZE=n, MASTER_RANK=0, SECRETARY_RANK=min(1, n - 1), SLAVE_RANKS=list(range(1, n)),
                        WORKER_RANKS=[i for i in range(n) if i != min(1, n - 1)])
        self.mods = mods

    def __enter__(self):
        self.old = []
        for m in self.mods:
            self.old.append({k: m.__dict__[k] for k in self.new if k in m.__dict__})
            m.__dict__.update({k: v for k, v in self.new.items() if k in m.__dict__})

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.old):
            m.__dict__.update(o)


def _builtins(ctx, *mods):
    if not ctx.symbolic:
        return contextlib.nullcontext()
    from engine.sym import builtins_of
    return builtins_of(*mods)


def _size(r):
    return r.stop - r.start


IDS = {1: ('crazy', 2), 4: ('chp1', 2), 6: ('cic', 2), 8: ('cuboid', 3)}


def _blank(regions, counts):
    """A mesh of which only the domain and the numbers of elements of the regions are decided."""
    import objects.CSCG.base.mesh.base as B
    ID, ndim = IDS[regions]
    src = (mesh2 if ndim == 2 else mesh3)(ID, [2] * ndim)
    m = object.__new__(type(src))
    m._domain_ = src.domain
    m.___PRIVATE_parse_element_layout___([2] * ndim)
    rns = m.domain.regions.names
    m._num_elements_in_region_ = dict(zip(rns, counts))
    tot = 0
    acc = dict()
    for rn, c in zip(rns, counts):
        tot = tot + c
        acc[rn] = tot
    m._num_total_elements_ = tot
    return m, B, rns, acc


def distribution(ctx, n=1, regions=1, EDM='auto', lo=1, hi=10 ** 6):
    """The processes' element ranges: contiguous, in rank order, covering everything."""
    counts = [ctx.int('n%d' % i, lo, hi) for i in range(regions)]
    if regions > 1 and EDM in ('auto', 'SWV0'):      # 'equal' regions, as the library defines it
        tot = sum(counts[1:], counts[0])
        for c in counts:
            ctx.assume(10 * regions * c > 8 * tot)
            ctx.assume(10 * regions * c < 12 * tot)
    got = []
    for r in sorted({0, n // 2, n - 1}):
        m, B, rns, acc = _blank(regions, counts)
        m._REDT_ = 'equal' if EDM != 'debug' else 'unknown'
        with Rank(r, n, B), _builtins(ctx, B):
            m.___PRIVATE_BASE_decide_EDM___(None if EDM == 'auto' else EDM)
            m.___PRIVATE_BASE_parse_element_distribution_method___()
        d = m._element_distribution_
        ctx.claim(sorted(d) == list(range(n)), 'one range per process')
        at = 0
        for q in range(n):
            ctx.claim(d[q].start == at, 'the ranges follow each other')
            ctx.claim(d[q].stop >= d[q].start, 'a process has no negative number of elements')
            at = d[q].stop
        tot = m._num_total_elements_
        ctx.claim(at == tot, 'the ranges cover all elements')
        ctx.claim(m._element_indices_.start == d[r].start, 'the local range is that of the rank')
        ctx.claim(m._element_indices_.stop == d[r].stop, 'the local range is that of the rank')
        ctx.claim(m._num_local_elements_ == _size(d[r]), 'the local number of elements')
        got.append(d)
        if m._EDM_ is None and n > 2:
            # the slaves share evenly
            sl = [_size(d[q]) for q in range(2, n)]
            for a, b in itertools.permutations(sl, 2):
                ctx.claim(a - b <= 1, 'the slaves share evenly')
        if m._EDM_ is not None:
            bounds = [0] + [acc[rn] for rn in rns]
            for q in range(n):
                if m._EDM_ == 'SWV0':
                    # a process has elements of one region only, that it is listed for
                    own = [i for i, rn in enumerate(rns) if q in m.___region_cores_dict___[rn]]
                    ctx.claim(len(own) == 1, 'a process belongs to one region')
                    i = own[0]
                    ctx.claim(d[q].start >= bounds[i], 'elements of one region only')
                    ctx.claim(d[q].stop <= bounds[i + 1], 'elements of one region only')
                else:
                    ctx.claim(any(bool(d[q].stop == b) for b in bounds), 'whole regions')
                    ctx.claim(_size(d[q]) > 0, 'every process has a region')
    for d in got[1:]:
        for q in range(n):
            ctx.claim(d[q].start == got[0][q].start, 'every rank knows the same distribution')
            ctx.claim(d[q].stop == got[0][q].stop, 'every rank knows the same distribution')


class _O(object):
    pass


class _Alone(object):
    """The communicator as the master sees it when the other ranks have nothing to add."""

    def allreduce(self, x, op=None):
        return x

    def gather(self, x, root=0):
        return [x]

    def bcast(self, x, root=0):
        return x


def numbering(ctx, layout=(4, 4, 4), n=4, empty=False):
    """The numbering of the elements of a region shared by n processes, for every distribution over
    them: a bijection onto the region's numbers, in the shape of its layout; and the distribution
    that is derived from it afterwards is again one."""
    import importlib
    ndim = len(layout)
    src = (mesh2 if ndim == 2 else mesh3)('crazy', list(layout))
    mod = importlib.import_module(type(src).__module__)
    m = object.__new__(type(src))
    m._domain_ = src.domain
    m.___PRIVATE_parse_element_layout___(list(layout))
    N = int(m._num_total_elements_)
    rn = m.domain.regions.names[0]
    m._EDM_ = 'SWV0'
    m.___region_cores_dict___ = {rn: list(range(n))}
    m.___USEFUL_regions_and_boundaries___ = [rn]
    m.___MC_LF___, m.___SC_LF___ = 0.75, 0.9
    sizes = [ctx.int('d%d' % q, 0 if empty else 1, N) for q in range(n - 1)]
    last = N - sum(sizes[1:], sizes[0])
    ctx.assume(last >= (0 if empty else 1))
    R = range
    if ctx.symbolic:
        from engine.sym import s_range as R
    d, at = {}, 0
    for q, k in enumerate(sizes + [last]):
        d[q] = R(at, at + k)
        at = at + k
    m._element_distribution_ = d
    m._element_indices_, m._num_local_elements_ = d[0], sizes[0]
    m.___character_num_elements___ = dict()
    m.___PRIVATE_BASE_analyze_element_distribution___ = lambda: None
    old = mod.COMM
    mod.COMM = _Alone()
    try:
        with Rank(0, n, mod), _builtins(ctx, mod):
            E = m.___PRIVATE_generate_element_global_numbering___('all regions')[rn]
            m.___PRIVATE_optimize_element_distribution___()
            m.___SWV0_para___ = dict(m.___SWV0_para___)
            again = m.___PRIVATE_generate_element_global_numbering___(rn)
    finally:
        mod.COMM = old
    ctx.claim(E.shape == tuple(layout), 'numbered in the shape of the layout')
    ctx.claim(sorted(int(v) for v in E.ravel()) == list(range(N)), 'every number is used once')
    ctx.claim(bool(np.all(again == E)), 'numbering again gives the same numbers')
    at = 0
    d = m._element_distribution_
    for q in range(n):
        ctx.claim(d[q].start == at, 'the ranges follow each other')
        ctx.claim(d[q].stop >= d[q].start, 'a process has no negative number of elements')
        at = d[q].stop
    ctx.claim(at == N, 'the ranges cover all elements')


def owner(ctx, which='3d', n=1, empty=False, hi=1000):
    """slave_of_element / rank_of_element: the process whose range holds the element."""
    import importlib
    mod = importlib.import_module({
        '3d': 'objects.CSCG._3d.mesh.do.find', '2d': 'objects.CSCG._2d.mesh.do.find',
        'tri': 'objects.miUsGrid.triangular.mesh.elements.do.find'}[which])
    sizes = [ctx.int('d%d' % q, 0 if empty else 1, hi) for q in range(n)]
    R = range
    if ctx.symbolic:
        from engine.sym import s_range as R
    d, at = {}, 0
    if empty:
        ctx.assume(sum(sizes[1:], sizes[0]) > 0)
    for q in range(n):
        d[q] = R(at, at + sizes[q])
        at = at + sizes[q]
    i = ctx.int('i', 0, hi * n)
    ctx.assume(i < at)
    if which == 'tri':
        t = _O()
        t.distributions = [d[q] for q in range(n)]
        f = mod.miUsGrid_TriangularMesh_Elements_DO_FIND(t).rank_of_element
    else:
        o, t = _O(), _O()
        o._mesh_ = t
        t._element_distribution_ = d
        t.___is_occupying_all_cores___ = not empty
        t.ndim = 3
        f = [v for k, v in mod.__dict__.items() if k.endswith('DO_FIND')][0](o).slave_of_element
    with Rank(0, n, mod), _builtins(ctx, mod):
        r = f(i)
    ctx.claim(r is not None and 0 <= r < n, 'a process is found')
    ctx.claim(d[r].start <= i, 'the element is in the range of the process found')
    ctx.claim(i < d[r].stop, 'the element is in the range of the process found')


def groups(ctx, n=4):
    """GROUP_CORES: the groups partition the processes, each led by its smallest rank."""
    import root.config.group as G
    k = ctx.choice('k', list(range(0, n + 3)))
    seen = {}
    for r in range(n):
        with Rank(r, n, G):
            dg = G.GROUP_CORES(k)
            if k and k <= n:
                dn = G.GROUP_CORES(None, group_num=k)
                ctx.claim(dn['group number'] == k, 'the number of groups asked for')
        L = dg['leaders']
        ctx.claim(dg['group number'] == len(L), 'one leader per group')
        mem = []
        for a in L:
            ctx.claim(all(x > a for x in dg[a]), 'the leader has the smallest rank')
            mem += [a] + dg[a]
            if max(k, 1) <= n and n > 1:
                ctx.claim(len(dg[a]) + 1 <= max(k, 1), 'no group is larger than asked')
        ctx.claim(sorted(mem) == list(range(n)), 'the groups partition the processes')
        ctx.claim(r == dg['my leader'] or r in dg[dg['my leader']], 'my leader leads my group')
        seen[r] = (L, mem)
    ctx.claim(all(seen[r] == seen[0] for r in range(n)), 'all ranks agree')


def tools(ctx, n=3):
    """TREE reduction, DISPATCHING, CHAINING: every contribution arrives exactly once."""
    from root.config import main as M
    x = [ctx.real('x%d' % r) for r in range(n)]
    done = []

    def go(r):
        acc = x[r]
        alive = True
        for rs in M.TREE():
            if rs is None:
                continue
            rs_, kw = rs
            if rs_ == 'recv':
                acc = acc + M.COMM.recv(**kw)
            else:
                ctx.claim(alive, 'a rank gives away its part once')
                M.COMM.send(acc, **kw)
                alive = False
        out = M.DISPATCHING([10 * i for i in range(7)] if r == 0 else None, lambda v: v + 1)
        M.CHAINING(lambda: done.append(r))
        return acc, out
    R = mpisim.run(n, go)
    ctx.equal(np.array([R[0][0]]), np.array([sum(x[1:], x[0])]), 1e-9, 'the root of the tree has the sum over all ranks')
    ctx.claim(sorted(v for _, o in R for v in o) == [10 * i + 1 for i in range(7)], 'every task is done once')
    ctx.claim(done == list(range(n)), 'CHAINING runs the ranks in order')


# --------------------------------------------------------------------------------------------------
def _random(ctx, parts, n):
    """random.randint of the 'chaotic' distribution: any shares of `parts`."""
    import random
    share = [ctx.int('share%d' % k, 0, parts) for k in range(n)]
    ctx.assume(sum(share[1:], share[0]) > 0)

    class R(object):
        def __getattr__(self, k):
            return getattr(random, k)

        def __init__(self):
            self.k = 0

        def randint(self, a, b):
            self.k += 1
            return 12 * int(share[(self.k - 1) % n])
    return R()


def _key(mesh, e):
    rn, ind = mesh.do.find.region_name_and_local_indices_of_element(e)
    return (rn,) + tuple(int(i) for i in ind)


def _mesh(kw, ndim):
    kw = dict(kw)
    return (mesh3 if ndim == 3 else mesh2)(**kw)


FORMS3 = ('0-f', '1-f', '2-f', '3-f', '0-t', '1-t', '2-t', '0-e', '1-e')
FORMS2 = ('0-f-i', '1-f-i', '2-f-i', '0-f-o', '1-f-o', '2-f-o', '1-t-o')


def _gm(f):
    g = f.numbering.gathering
    return {e: [int(v) for v in g[e].full_vector] for e in g}


def _all(mesh, ndim, p, forms, ref, pts):
    """What one rank knows of the mesh and of the numbering of its forms."""
    out = {}
    es = list(mesh.elements.indices)
    out['key'] = {e: _key(mesh, e) for e in es}
    out['map'] = {e: list(mesh.elements.map[e]) for e in es}
    out['xyz'] = {e: mesh.elements[e].coordinate_transformation.mapping(*pts) for e in es}
    out['global'] = mesh.elements.global_num
    out['local'] = es
    out['dist'] = {q: list(v) for q, v in mesh._element_distribution_.items()}
    out['owner'] = [mesh.do.find.slave_of_element(e) for e in range(mesh.elements.global_num)]
    out['bnd'] = {b: list(v) for b, v in mesh.boundaries.range_of_element_sides.items()} if ndim == 3 else \
        {b: list(v) for b, v in mesh.boundaries.range_of_element_edges.items()}
    out['gm'], out['num'] = {}, {}
    te = mesh.trace.elements
    out['trace'] = {e: [int(i) for i in te.map[e]] for e in es}
    out['trace_num'] = te.global_num
    out['trace_pos'] = {int(i): te[i].positions for i in te}
    fc = (fc3 if ndim == 3 else fc2)(mesh, (space3 if ndim == 3 else space2)(p, 'Lobatto'))
    for k, hy in forms:
        f = fc(k) if hy is None else fc(k, hybrid=hy)
        out['gm'][k, hy] = _gm(f)
        out['num'][k, hy] = f.num.global_dofs if hasattr(f.num, 'global_dofs') else None
    return out


def whole(ctx, mesh=None, ndim=2, n=2, p=None, forms=(), EDM=None, chaos=0):
    """The union of what the ranks know is the mesh that one process builds, element by element."""
    p = p or ((1, 2, 1) if ndim == 3 else (2, 1))
    pts = [np.array([ctx.real('r%d' % d)]) for d in range(ndim)]
    kw = dict(mesh)
    ref = _all(_mesh(kw, ndim), ndim, p, forms, None, pts)

    def go(r):
        import objects.CSCG.base.mesh.base as B
        old = B.random
        if chaos:
            B.random = rnd
        try:
            m = _mesh(dict(kw, EDM=EDM), ndim)
        finally:
            B.random = old
        return _all(m, ndim, p, forms, ref, pts)
    rnd = _random(ctx, chaos, n) if chaos else None
    with ctx.symbolic_code():
        R = mpisim.run(n, go)
    G = ref['global']
    for q in R:
        ctx.claim(q['global'] == G, 'the global number of elements')
        ctx.claim(q['dist'] == R[0]['dist'], 'every rank knows the same distribution')
    ctx.claim([e for q in R for e in q['local']] == list(range(G)), 'the local elements partition the elements in rank order')
    own = {e: r for r, q in enumerate(R) for e in q['local']}
    for q in R:
        ctx.claim(q['owner'] == [own[e] for e in range(G)], 'the owner of every element')
    key = {e: k for q in R for e, k in q['key'].items()}
    inv = {k: e for e, k in ref['key'].items()}
    ctx.claim(sorted(map(str, key.values())) == sorted(map(str, inv)), 'the elements are those of the mesh')
    to1 = {e: inv[k] for e, k in key.items()}        # numbering with n processes -> with one
    for q in R:
        for e in q['local']:
            a = [to1.get(x, x) if not isinstance(x, str) else x for x in q['map'][e]]
            ctx.claim(a == ref['map'][to1[e]], 'the neighbours of an element')
            ctx.equal(np.array([v[0] for v in q['xyz'][e]]), np.array([v[0] for v in ref['xyz'][to1[e]]]), 1e-9,
                      'the element lies in the same place')
    for b in ref['bnd']:
        got = sorted('%d%s' % (to1[int(s[:-1])], s[-1]) for q in R for s in q['bnd'].get(b, ()))
        ctx.claim(got == sorted(ref['bnd'][b]), 'the element sides on a boundary')
    def same(got, want, what, dense=True):
        """got, want: {element: numbers}: equal up to a renaming of the numbers"""
        ren, back = {}, {}
        ok = set(got) == set(to1)
        for e in got:
            w = want[to1[e]]
            ok = ok and len(w) == len(got[e])
            for a, b in zip(got[e], w):
                ok = ok and ren.setdefault(a, b) == b and back.setdefault(b, a) == a
        ctx.claim(ok, what + ': shared between the same elements')
        if dense:
            ctx.claim(sorted(ren) == list(range(len(ren))), what + ': numbered 0, 1, 2, ...')
        return len(ren)
    tr = {e: v for q in R for e, v in q['trace'].items()}
    k = same(tr, ref['trace'], 'trace elements')
    for q in R:
        ctx.claim(q['trace_num'] == k, 'the global number of trace elements')
        ctx.claim(set(q['trace_pos']) == {t for e in q['local'] for t in q['trace'][e]}, 'the local trace elements are those of the local elements')
    for f in forms:
        got = {}
        for q in R:
            got.update(q['gm'][f])
        k = same(got, ref['gm'][f], 'numbering of %s' % (f,))
        for q in R:
            if q['num'][f] is not None:
                ctx.claim(q['num'][f] == ref['num'][f] == k, 'the global number of dofs of %s' % (f,))


def whole_tri(ctx, ID='st4', n=3):
    pts = [np.array([ctx.real('r%d' % d)]) for d in range(2)]

    def know(fc):
        m = fc.mesh
        es = list(m.elements.indices)
        out = dict(local=es, global_=m.elements.num.global_cells if hasattr(m.elements.num, 'global_cells') else None,
                   map={e: list(m.elements.map[e]) for e in es},
                   xyz={e: m.elements[e].coordinate_transformation.mapping(*pts) for e in es},
                   owner=None, gm={})
        for k in ('0-f-i', '1-f-i', '2-f-i', '0-f-o', '1-f-o', '2-f-o'):
            out['gm'][k] = _gm(fc(k))
        tot = sum(len(v) for v in m.elements.distributions)
        out['owner'] = [m.elements.do.find.rank_of_element(e) for e in range(tot)]
        return out
    ref = know(tri(ID, 2))
    fcs = mpisim.run(n, lambda r: tri(ID, 2))
    with ctx.symbolic_code():
        R = mpisim.run(n, lambda r: know(fcs[r]))
    G = len(ref['local'])
    ctx.claim([e for q in R for e in q['local']] == list(range(G)), 'the local elements partition the elements in rank order')
    own = {e: r for r, q in enumerate(R) for e in q['local']}
    for q in R:
        ctx.claim(q['owner'] == [own[e] for e in range(G)], 'the owner of every element')
        for e in q['local']:
            ctx.claim(q['map'][e] == ref['map'][e], 'the neighbours of an element')
            ctx.equal(np.array([v[0] for v in q['xyz'][e]]), np.array([v[0] for v in ref['xyz'][e]]), 1e-9,
                      'the element lies in the same place')
    for k in ref['gm']:
        got = {}
        for q in R:
            got.update(q['gm'][k])
        ren, back = {}, {}
        ok = set(got) == set(ref['gm'][k])
        for e in got:
            for a, b in zip(got[e], ref['gm'][k][e]):
                ok = ok and ren.setdefault(a, b) == b and back.setdefault(b, a) == a
        ctx.claim(ok and sorted(ren) == list(range(len(ren))), 'numbering of %s: shared between the same elements' % k)


def F3(*ks):
    return tuple((k, h) for k in ks for h in ((False, True) if k[-1] in 'ft' and k != '3-f' else (None,)))


def F2(*ks):
    return tuple((k, h) for k in ks for h in ((False, True) if k[0] != '2' and '-t-' not in k else (None,)))


HARNESSES = []
for n in (1, 2, 3, 4, 5, 7):
    HARNESSES.append(H('dist-trivial-%d' % n, distribution, n=n, regions=1, EDM='debug', lo=0))
for n in (2, 3, 4, 5):
    HARNESSES.append(H('dist-one-region-%d' % n, distribution, n=n, regions=1))
for n, k in ((2, 4), (3, 4), (4, 4), (4, 6), (5, 4), (3, 8), (8, 4)):
    HARNESSES.append(H('dist-%d-regions-%d' % (k, n), distribution, n=n, regions=k))
for n, k in ((7, 4), (6, 8), (7, 1), (8, 1), (9, 4), (11, 4), (12, 6)):
    HARNESSES.append(H('dist-%d-regions-%d' % (k, n), distribution, tier='thorough', timeout=600, n=n, regions=k))
for w in ('3d', '2d', 'tri'):
    for n in (1, 3, 6, 7, 8, 11):
        HARNESSES.append(H('owner-%s-%d' % (w, n), owner, which=w, n=n))
    for n in (12, 13, 16):
        HARNESSES.append(H('owner-%s-%d' % (w, n), owner, tier='thorough', timeout=600, which=w, n=n))
    for n in (3, 7):
        HARNESSES.append(H('owner-empty-%s-%d' % (w, n), owner, which=w, n=n, empty=True))
for n in (1, 2, 3, 4, 5, 8):
    HARNESSES.append(H('groups-%d' % n, groups, n=n))
    HARNESSES.append(H('tools-%d' % n, tools, n=n))
for lay, n in (((4, 4, 4), 4), ((3, 3, 3), 9), ((5, 5, 5), 5), ((2, 3, 4), 4), ((4, 3, 5), 5), ((5, 2, 3), 8), ((2, 2, 9), 4), ((3, 2, 4), 3),
               ((4, 4), 4), ((3, 5), 5), ((2, 7), 4), ((6, 4), 6)):
    HARNESSES.append(H('numbering-%s-%d' % ('x'.join(map(str, lay)), n), numbering, layout=lay, n=n))
for lay, n in (((4, 3, 3), 5), ((4, 3), 4)):
    HARNESSES.append(H('numbering-empty-%s-%d' % ('x'.join(map(str, lay)), n), numbering, layout=lay, n=n, empty=True))
A3 = F3('0-f', '1-f', '2-f', '3-f', '0-t', '1-t', '2-t')
A2 = F2('0-f-i', '1-f-i', '2-f-i', '0-f-o', '1-f-o', '2-f-o', '1-t-o')
HARNESSES += [
    H('2d-crazy-2', whole, mesh=dict(ID='crazy', layout=(3, 4), c=0.1), ndim=2, n=2, forms=A2),
    H('2d-crazy-5', whole, mesh=dict(ID='crazy', layout=(5, 4), c=0.1), ndim=2, n=5, forms=A2),
    H('2d-periodic-3', whole, mesh=dict(ID='crazy_periodic', layout=(3, 3)), ndim=2, n=3, forms=A2),
    H('2d-chp1-3', whole, mesh=dict(ID='chp1', layout=(2, 2)), ndim=2, n=3, forms=A2),
    H('2d-chp1-6', whole, mesh=dict(ID='chp1', layout=(3, 2)), ndim=2, n=6, forms=A2),
    H('2d-cic-4', whole, mesh=dict(ID='cic', layout=(2, 2)), ndim=2, n=4, forms=F2('0-f-i', '1-f-o')),
    H('2d-chaotic', whole, mesh=dict(ID='crazy', layout=(2, 3)), ndim=2, n=3, forms=F2('0-f-i', '1-f-o', '1-t-o'), EDM='chaotic', chaos=2),
    H('3d-crazy-2', whole, mesh=dict(ID='crazy', layout=(3, 2, 2), c=0.1), ndim=3, n=2, forms=A3),
    H('3d-crazy-4', whole, mesh=dict(ID='crazy', layout=(4, 4, 4)), ndim=3, n=4, forms=F3('0-f', '2-f')),
    H('3d-flat-5', whole, mesh=dict(ID='crazy', layout=(2, 5, 4)), ndim=3, n=5, forms=F3('0-f', '2-f', '1-t')),
    H('3d-periodic-3', whole, mesh=dict(ID='crazy_periodic', layout=(2, 3, 2)), ndim=3, n=3, forms=A3),
    H('3d-bridge-3', whole, mesh=dict(ID='bridge_arch_cracked', layout=(2, 2, 1)), ndim=3, n=3, forms=A3),
    H('3d-bridge-6', whole, mesh=dict(ID='bridge_arch_cracked', layout=(2, 1, 2)), ndim=3, n=6, forms=F3('0-f', '1-f')),
    H('3d-chaotic', whole, mesh=dict(ID='crazy', layout=(2, 1, 2)), ndim=3, n=3, forms=F3('0-f', '1-f', '1-t'), EDM='chaotic', chaos=2),
    H('tri-2', whole_tri, ID='st4', n=2),
    H('tri-5', whole_tri, ID='square', n=5),
]
