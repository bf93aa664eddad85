"""C22: what is saved is what is read: forms, meshes and spaces survive the file, for every cochain and any number of processes on either side."""
import os
import shutil
import tempfile
import numpy as np
from engine.harness import H
from engine import mpisim
from checks.common import mesh2, mesh3, space2, space3, fc2, fc3
from checks.C13 import S_, C

BOUNDS = ('2-D and 3-D meshes of 2-8 elements (1-4 regions, also non-uniform layouts), degrees <= 3, every local coefficient symbolic; written by 1-3 simulated '
          'processes and read by 1-3 with the same or another element distribution; single objects and lists; reads in any order of two meshes and spaces')
ASSUMPTIONS = ['the file system returns the bytes written', 'pickle restores what it stores (symbols included)', 'several processes are simulated in one Python process']


class Dir(object):
    """a scratch directory that is the working directory: the library checks the form of a file name"""
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='vf22_')
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def caller(dim, mesh, space):
    if dim == 3:
        return fc3(mesh3(*mesh[0], **mesh[1]), space3(*space))
    return fc2(mesh2(*mesh[0], **mesh[1]), space2(*space))


def prime(f):
    return f.prime if 'ADF' in type(f).__name__ else f


def clear():
    import root.read.main as R
    for k in dir(R):
        if k.startswith('___CACHE_'):
            getattr(R, k).clear()


def keys(m):
    """element -> what identifies it whatever the numbering"""
    return {i: (m.do.find.region_name_and_local_indices_of_element(i)) for i in m.elements}


def params(m):
    return str(m.standard_properties.parameters)


def norm(k):
    return k[0], tuple(int(j) for j in k[1])


def roundtrip(ctx, dim, mesh, space, ids, ns, nr, together=True, individuals=None):
    from root.save import save
    from root.read.main import read
    forms, built = {}, {}

    def build(r):
        fc = caller(dim, mesh, space)
        built[r] = [fc(I, **kw) for I, kw in ids]
        return keys(prime(built[r][0]).mesh)
    mpisim.run(ns, build)
    want, kinds = [], []
    for k in range(len(ids)):
        w = {}
        for r in range(ns):
            p = prime(built[r][k])
            for e, key in keys(p.mesh).items():
                w[norm(key)] = np.array(ctx.reals('a%d_%d_' % (k, e), (p.num.basis,)))
        want.append(w)
        f = built[0][k]
        kinds.append((type(f).__name__, prime(f).whether.hybrid, prime(f).standard_properties.name, getattr(prime(f), 'orientation', None)))

    def write(r):
        for k, f in enumerate(built[r]):
            p = prime(f)
            p.cochain.local = {e: want[k][norm(key)] for e, key in keys(p.mesh).items()}
        if together:
            save(built[r], 'file')
        else:
            for k, f in enumerate(built[r]):
                save(f, 'file%d' % k)

    def get(r):
        if together:
            out = read('file', read_individuals=individuals)
            return [out] if len(ids) == 1 else list(out)
        return [read('file%d' % k) for k in range(len(ids))]

    def look(fs):
        return [None if f is None else (type(f).__name__, prime(f).whether.hybrid, prime(f).standard_properties.name, getattr(prime(f), 'orientation', None),
                                        {norm(k): np.asarray(prime(f).cochain.local[e]) for e, k in keys(prime(f).mesh).items()},
                                        params(prime(f).mesh), params(prime(f).space)) for f in fs]
    with Dir(), ctx.symbolic_code():
        mpisim.run(ns, write)

        def rd(r):
            return look(get(r))
        got = mpisim.run(nr, rd)
    for k in range(len(ids)):
        p = prime(built[0][k])
        if individuals is not None and not individuals[k]:
            ctx.claim(all(g[k] is None for g in got), 'what is not wanted is not read')
            continue
        seen = {}
        for g in got:
            ctx.claim(g[k][:4] == kinds[k], 'the kind, hybridity, name and orientation come back')
            ctx.claim(g[k][5] == params(p.mesh) and g[k][6] == params(p.space), 'the mesh and the space are those of the saved form')
            for key, v in g[k][4].items():
                ctx.claim(key not in seen, 'an element is on one process')
                seen[key] = v
        ctx.claim(set(seen) == set(want[k]), 'all elements come back')
        for key, v in seen.items():
            ctx.equal(v, want[k][key], 0, 'the cochain comes back element by element')


def again(ctx, dim, meshes, space, ID, n):
    """two meshes read in turn: never the cached one of the other"""
    from root.save import save
    from root.read.main import read
    fs, want = {}, {}

    def build(r):
        fs[r] = [caller(dim, m, s)(ID) for m, s in zip(meshes, space if isinstance(space, list) else [space] * len(meshes))]
    mpisim.run(n, build)
    for q in range(len(meshes)):
        for r in range(n):
            f = fs[r][q]
            for e in f.mesh.elements:
                want[q, e] = np.array(ctx.reals('a%d_%d_' % (q, e), (f.num.basis,)))

    def use(r):
        for q, f in enumerate(fs[r]):
            f.cochain.local = {e: want[q, e] for e in f.mesh.elements}
            save(f, 'f%d' % q)
            save(f.mesh, 'm%d' % q)
            save(f.space, 's%d' % q)
        res = []
        for q in (0, 1, 0, 0, 1):
            g = read('f%d' % q)
            m = read('m%d' % q)
            s = read('s%d' % q)
            res.append((q, g.mesh == fs[r][q].mesh, g.mesh == fs[r][1 - q].mesh and fs[r][0].mesh is not fs[r][1].mesh and meshes[0] != meshes[1], m == fs[r][q].mesh,
                        s == fs[r][q].space and g.space == s and (s == fs[r][1 - q].space) == (not isinstance(space, list)), m is g.mesh,
                        {e: np.asarray(g.cochain.local[e]) for e in g.mesh.elements}, sorted(m.elements.indices) == sorted(fs[r][q].mesh.elements.indices)))
        return res
    with Dir(), ctx.symbolic_code():
        out = mpisim.run(n, use)
    for r, o in enumerate(out):
        for q, a, b, c, d, same, v, el in o:
            ctx.claim(a and not b, 'the mesh of a form read is its own')
            ctx.claim(c and d and el, 'a mesh and a space come back')
            for e, x in v.items():
                ctx.equal(x, want[q, e], 0, 'the cochain of a form read in turn')


def geometry(ctx, dim, mesh, space, n):
    """a mesh that comes back maps its elements alike, its space has the same nodes"""
    from root.save import save
    from root.read.main import read
    x = [ctx.real('x%d' % i, -1, 1) for i in range(dim)]
    b = {}

    def build(r):
        f = caller(dim, mesh, space)
        b[r] = f._mesh_, f._space_

    def use(r):
        m, s = b[r]
        save([m, s], 'both')
        clear()
        M, S = read('both')
        out = []
        for i in m.elements:
            if i in M.elements:
                a = m.elements[i].coordinate_transformation.mapping(*[np.array([t]) for t in x])
                c = M.elements[i].coordinate_transformation.mapping(*[np.array([t]) for t in x])
                out.append((i, [t[0] for t in a], [t[0] for t in c]))
        return out, sorted(m.elements.indices) == sorted(M.elements.indices), [[float(t) for t in q] for q in s.nodes], [[float(t) for t in q] for q in S.nodes], m.elements.map, M.elements.map
    mpisim.run(n, build)
    with Dir(), ctx.symbolic_code():
        res = mpisim.run(n, use)
    for out, same, n0, n1, m0, m1 in res:
        ctx.claim(same and n0 == n1, 'the same elements and nodes')
        ctx.claim({k: list(v) for k, v in m0.items()} == {k: list(v) for k, v in m1.items()}, 'the same neighbours')
        for i, a, c in out:
            ctx.equal(np.array(c), np.array(a), 1e-12, 'the same mapping')


def mutated(ctx, dim):
    """a mesh is saved as it is, whatever became of the list it was made from"""
    from root.save import save
    from root.read.main import read
    x = [ctx.real('x%d' % i, -1, 1) for i in range(dim)]
    layout = [[1, 2], 1, 2][:dim]
    m = (mesh3 if dim == 3 else mesh2)('crazy', layout, c=0.1)
    layout[0][1] = 1
    layout[1] = 2
    with Dir(), ctx.symbolic_code():
        save(m, 'm')
        M = read('m')
        ctx.claim(sorted(m.elements.indices) == sorted(M.elements.indices), 'the same elements')
        for i in M.elements:
            a = m.elements[i].coordinate_transformation.mapping(*[np.array([t]) for t in x])
            c = M.elements[i].coordinate_transformation.mapping(*[np.array([t]) for t in x])
            ctx.equal(np.array([t[0] for t in c]), np.array([t[0] for t in a]), 1e-12, 'the same mapping')


def equality(ctx):
    """meshes, domains and spaces are equal exactly when they are made of the same data"""
    c = [ctx.choice('c%d' % k, [0.1, 0.15]) for k in (0, 1)]
    d = [ctx.choice('d%d' % k, [1, 2]) for k in (0, 1)]
    for dim in (3, 2):
        tail = (1,) * (dim - 1)
        m = [(mesh3 if dim == 3 else mesh2)('crazy', (d[k],) + tail, c=c[k], bounds=[(0, 1 + k * 0)] * dim) for k in (0, 1)]
        s = [(space3 if dim == 3 else space2)((d[k],) + tail) for k in (0, 1)]
        ctx.claim(m[0].domain == m[0].domain, 'equal domains')
        ctx.claim((m[0] == m[1]) == (c[0] == c[1] and d[0] == d[1]), 'equal meshes')
        ctx.claim((s[0] == s[1]) == (d[0] == d[1]), 'equal spaces')
        o = (mesh3 if dim == 3 else mesh2)('crazy', (d[0],) + tail, c=c[0], bounds=[(0, 2)] * dim)
        ctx.claim(not (o == m[0]) and not (o.domain == m[0].domain), 'other bounds')
        o = (mesh3 if dim == 3 else mesh2)('crazy_periodic', (2,) * dim, c=c[0])
        ctx.claim(not (o == (mesh3 if dim == 3 else mesh2)('crazy', (2,) * dim, c=c[0])), 'another domain')


A3 = (('crazy', (1, 2, 2)), dict(c=0.1))
B3 = (('crazy', (2, 1, 2)), dict(c=0.1))
N3 = (('crazy', ([1, 2], 2, [1, 3])), dict(c=0.))
BR = (('bridge_arch_cracked', (1, 1, 2)), {})
A2 = (('crazy', (2, 3)), dict(c=0.1))
B2 = (('crazy', (2, 3)), dict(c=0.15))
G2 = (('crazy', (np.array([1, 1.000000001]), 2)), dict(c=0.1))
H2 = (('crazy', (np.array([1.000000001, 1]), 2)), dict(c=0.1))
CH = (('chp1', (1, 2)), {})
P3, P2 = ((1, 2, 1),), ((2, 1),)
h, nh = dict(hybrid=True), dict(hybrid=False)

HARNESSES = [
    S_('3D', C(roundtrip, 3, A3, P3, [('0-f', nh), ('1-f', h), ('2-f', nh), ('3-f', {})], 1, 2), C(roundtrip, 3, BR, ((1, 1, 1),), [('1-f', nh)], 3, 1)),
    S_('3D several', C(roundtrip, 3, B3, P3, [('2-f', h), ('0-f', h), ('1-f', nh)], 2, 3, individuals=[1, 0, 1]),
       C(roundtrip, 3, N3, ((1, 1, 2),), [('1-f', dict(hybrid=False, name='vf-one'))], 2, 1, together=False)),
    S_('3D traces', C(roundtrip, 3, A3, P3, [('0-t', h), ('1-t', nh), ('2-t', h)], 2, 1), C(roundtrip, 3, B3, P3, [('0-e', nh), ('1-e', h)], 1, 2, together=False)),
    S_('3D duals', C(roundtrip, 3, A3, P3, [('0-adf', {}), ('1-adf', {}), ('2-adf', {}), ('3-adf', {})], 1, 2),
       C(roundtrip, 3, B3, P3, [('0-adt', {}), ('2-adt', {})], 2, 1, together=False)),
    S_('2D', C(roundtrip, 2, A2, P2, [('0-f-i', nh), ('1-f-i', h), ('2-f-i', {}), ('0-f-o', h), ('1-f-o', nh), ('2-f-o', {})], 1, 3),
       C(roundtrip, 2, CH, P2, [('1-f-o', nh)], 3, 2, together=False), C(roundtrip, 2, A2, P2, [('1-t-o', {})], 2, 1)),
    S_('in turn', C(again, 2, (A2, B2), P2, '1-f-o', 1), C(again, 3, (A3, B3), P3, '2-f', 2), C(again, 2, (G2, H2), P2, '2-f-i', 1), C(mutated, 2), C(mutated, 3)),
    S_('spaces in turn', *[C(again, 2, (A2, A2), [u, v], '1-f-o', 1) for u, v in ((((2, 1),), ((1, 2),)), (((2, 1),), ((2, 1), 'free')))],
       C(again, 3, (A3, A3), [((1, 1, 2),), ((1, 2, 1),)], '2-f', 2)),
    S_('equality', C(equality)),
    S_('geometry', C(geometry, 3, N3, P3, 1), C(geometry, 2, CH, P2, 2), C(geometry, 2, A2, (('Gauss', 2) if False else (2, 3),), 1)),
]
