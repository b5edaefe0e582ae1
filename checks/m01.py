"""M01: mesh entities, incidence relations and measures describe the actual mesh."""
import numpy as np
import hypothesis.strategies as st

import gen
from harness import Sub, check, close

from sfepy.discrete.fem import FEDomain, Mesh

PROP = 'M01'
RULE = ('Cases: structured meshes of every cell kind (also mixed triangles/quads, shells and '
        'trusses in higher space dimension), with jittered and affinely mapped vertices, '
        'removed cells, random cell-vertex rotations, inverted cells, permuted vertices and '
        'cells; then a random history of connectivity set-ups/frees.  Non-trivial: at least '
        'two cells sharing an entity, or a removed-cell mesh.')
ASSUMPTIONS = ['cell kinds 1_2, 2_3, 2_4, 3_4, 3_8 (wedges are documented as unsupported) with documented vertex numbering',
               'hexahedra have positive Jacobians at the vertices']


class Model:
    """Brute-force incidence from the cell-vertex lists."""

    def __init__(self, cells, ctypes, n_vert):
        self.D = D = int(ctypes[0][0])
        self.cells = cells
        self.ents = {0: [frozenset([i]) for i in range(n_vert)],
                     D: [frozenset(c) for c in cells]}
        self.local = {}
        for d in range(1, D):
            loc = []
            seen = {}
            for c, t in zip(cells, ctypes):
                le = gen.EDGES[t] if d == 1 else gen.FACES[t]
                row = [tuple(c[i] for i in e) for e in le]
                loc.append(row)
                for e in row:
                    seen.setdefault(frozenset(e), len(seen))
            self.local[d] = loc
            self.ents[d] = list(seen)

    def related(self, a, da, b, db):
        """Incidence between entities given as vertex sets (a of dim da, b of dim db)."""
        if da < db:
            return self._in(a, da, b, db)
        if da > db:
            return self._in(b, db, a, da)
        return False

    def _in(self, a, da, b, db):
        return a <= b


def cell_lists(raw):
    cells, types = [], []
    for d, c in zip(raw['descs'], raw['conns']):
        cells += [tuple(int(i) for i in r) for r in c]
        types += [d] * len(c)
    return cells, types


def rows(conn):
    off = np.asarray(conn.offsets)
    ind = np.asarray(conn.indices)
    check(off[0] == 0 and off[-1] == len(ind) and (np.diff(off.astype(int)) >= 0).all(),
          'bad offsets')
    return [ind[off[i]:off[i + 1]].astype(int).tolist() for i in range(len(off) - 1)]


def tri_area(p):
    u, v = p[1] - p[0], p[2] - p[0]
    g = np.array([[u @ u, u @ v], [u @ v, v @ v]])
    return 0.5 * np.sqrt(max(np.linalg.det(g), 0.0))


def run(case):
    kind = case['mesh']['kind']
    mesh, raw = gen.mesh(case['mesh'])
    cells, types = cell_lists(raw)
    coors = raw['coors']
    close(mesh.coors, coors, 0, 0, 'mesh coordinates')
    check(mesh.n_nod == len(coors) and mesh.n_el == len(cells), 'mesh shape info')
    dom = FEDomain('d', mesh)
    cm = dom.cmesh
    D = cm.tdim
    sdim = coors.shape[1]
    check(D == int(types[0][0]) and cm.dim == sdim, 'dimensions')
    close(cm.coors, coors, 0, 0, 'coordinates after domain creation')

    # Cells keep their vertices; where oriented, volumes are positive.
    cv = rows(cm.get_conn(D, 0))
    check(len(cv) == len(cells), 'number of cells')
    oc = []
    # Mesh may reorder kinds by desc order given; we pass them in that order.
    for i, (a, b) in enumerate(zip(cv, cells)):
        check(sorted(a) == sorted(b), 'cell %d vertices %s differ from %s', i, a, b)
        if sdim == D:
            jac = gen.cell_jacs(types[i], coors[np.array(a)][None])
            check((jac > 0).all(), 'cell %d is not positively oriented: %s', i, a)
        if not case['mesh'].get('inv') or sdim != D:
            check(a == list(b), 'valid cell %d renumbered: %s -> %s', i, b, a)
        oc.append(tuple(a))
    # The set of edges of each cell must be preserved by the orientation fix.
    for a, b, t in zip(oc, cells, types):
        ea = set(frozenset((a[i], a[j])) for i, j in gen.EDGES[t])
        eb = set(frozenset((b[i], b[j])) for i, j in gen.EDGES[t])
        check(ea == eb, 'orientation fix changed the topology of a cell')
    vg = np.asarray(cm.vertex_groups)
    check((vg == raw['ngroups']).all(), 'vertex groups')
    check((np.asarray(cm.cell_groups) == np.concatenate(raw['mat_ids'])).all(), 'cell groups')

    mod = Model(oc, types, len(coors))
    n_d = {d: len(mod.ents[d]) for d in mod.ents}
    # History of set-ups and frees.
    sides = list(range(D + 1))
    for op, d1, d2 in case['ops']:
        d1, d2 = d1 % (D + 1), d2 % (D + 1)
        if op:
            cm.setup_connectivity(d1, d2)
        elif d1 != d2 and not (d2 == 0) and d1 > 0:
            # The basic d -> 0 connectivities are kept by all callers.
            if not (d1 == D and d2 in (1, 2)):
                cm.free_connectivity(d1, d2)
    num = np.asarray(cm.num)
    for d in range(D + 1):
        check(num[d] == n_d[d], 'number of entities of dim %d: %d, expected %d', d,
              int(num[d]), n_d[d])

    # Identify entities by their vertex sets.
    ent = {0: [frozenset([i]) for i in range(len(coors))]}
    vlist = {}
    for d in range(1, D + 1):
        cm.setup_connectivity(d, 0)
        vlist[d] = rows(cm.get_conn(d, 0))
        if kind == '3_6' and d == 2:
            # Triangular faces of wedges are stored as degenerate quadrilaterals.
            vlist[d] = [r[:3] if r[2] == r[3] else r for r in vlist[d]]
        ent[d] = [frozenset(r) for r in vlist[d]]
        check(all(len(a) == len(b) for a, b in zip(ent[d], vlist[d])),
              'repeated vertices in an entity')
        check(sorted(map(sorted, ent[d])) == sorted(map(sorted, mod.ents[d])),
              'entities of dimension %d are not the expected ones', d)
    order = case['order']
    pairs = [(a, b) for a in sides for b in sides]
    rs = np.random.RandomState(order)
    rs.shuffle(pairs)
    for a, b in pairs:
        cm.setup_connectivity(a, b)
        got = rows(cm.get_conn(a, b))
        check(len(got) == n_d[a], 'connectivity %d -> %d has %d rows', a, b, len(got))
        for i, r in enumerate(got):
            if kind == '3_6' and (a, b) in ((2, 0), (0, 2)):
                r = got[i] = sorted(set(r))
            if a != b:
                exp = [j for j, e in enumerate(ent[b]) if mod.related(ent[a][i], a, e, b)]
            elif a == 0:
                # Neighbours through cells.
                exp = sorted(set(v for c in oc if i in c for v in c) - {i})
            else:
                exp = [j for j, e in enumerate(ent[b]) if j != i and (e & ent[a][i])]
            check(len(set(r)) == len(r) and sorted(r) == exp,
                  'connectivity %d -> %d of entity %d: %s, expected %s', a, b, i, r, exp)
        if not any(got) or (kind == '3_6' and 0 in (a, b) and 2 in (a, b)):
            continue  # An empty graph has no shape in scipy's constructor.
        g = cm.get_conn_as_graph(a, b)
        dense = np.zeros((n_d[a], n_d[b]), dtype=bool)
        for i, r in enumerate(got):
            dense[i, r] = True
        ga = g.toarray()
        check((ga == dense[:, :ga.shape[1]]).all() and not dense[:, ga.shape[1]:].any(),
              'graph of connectivity %d -> %d', a, b)
    # Local ordering of sub-entities in cells.
    for d in range(1, D):
        got = rows(cm.get_conn(D, d))
        for i, r in enumerate(got):
            exp = [frozenset(e) for e in mod.local[d][i]]
            check([ent[d][k] for k in r] == exp,
                  'local order of %d-entities of cell %d', d, i)
    # Cyclic order of quadrilateral faces.
    for d in range(1, D):
        cyc = {}
        for row in mod.local[d]:
            for e in row:
                cyc[frozenset(e)] = set(frozenset((e[k], e[(k + 1) % len(e)]))
                                        for k in range(len(e)))
        for r in vlist[d]:
            got = set(frozenset((r[k], r[(k + 1) % len(r)])) for k in range(len(r)))
            check(got == cyc[frozenset(r)], 'vertex order of a %d-entity %s', d, r)

    # Queries on subsets.
    for da, db, sel in case['queries']:
        da, db = da % (D + 1), db % (D + 1)
        sub = np.unique(np.array([s % n_d[da] for s in sel])).astype(np.uint32) if sel \
            else np.zeros(0, np.uint32)
        if case['shuffle']:
            sub = np.ascontiguousarray(sub[::-1])
        if da != db:
            cm.setup_connectivity(da, db)
            cm.setup_connectivity(db, da)
            if kind == '3_6' and 0 in (da, db) and 2 in (da, db):
                continue
            full = rows(cm.get_conn(da, db))
            inc, offs = cm.get_incident(db, sub, da, ret_offsets=True)
            exp = [full[i] for i in sub]
            check(np.asarray(inc).tolist() == sum(exp, []), 'incident entities')
            if len(sub):
                check(np.diff(offs.astype(int)).tolist() == [len(e) for e in exp],
                      'incident offsets')
            comp = cm.get_complete(db, sub, da)
            ss = set(int(i) for i in sub)
            back = rows(cm.get_conn(db, da))
            exp = [i for i, r in enumerate(back) if all(j in ss for j in r)] if ss else []
            check(np.asarray(comp).tolist() == exp, 'complete entities %d by %d: %s vs %s',
                  db, da, list(comp), exp)
            if da < db and len(sub):
                loc = cm.get_local_ids(sub, da, inc, offs, db)
                k = 0
                for i, s in enumerate(sub):
                    for c in full[s]:
                        check(back[c][loc[k]] == s, 'local ids')
                        k += 1
    # Geometry.
    for d in range(1, D + 1):
        cent = cm.get_centroids(d)
        exp = np.array([coors[list(r)].mean(0) for r in vlist[d]])
        if kind == '3_6' and d == 2:
            quad = [i for i, r in enumerate(vlist[d]) if len(r) == 4]
            cent, exp = cent[quad], exp[quad]
        close(cent, exp, 1e-12, 1e-14, 'centroids of dim %d' % d)
        vol = cm.get_volumes(d)
        ev = []
        for r in vlist[d]:
            x = coors[r]
            if d == 1:
                ev.append(np.linalg.norm(x[1] - x[0]))
            elif d == 2 and len(r) == 3:
                ev.append(tri_area(x))
            elif d == 2:
                if sdim == 2:
                    ev.append(tri_area(x[[0, 1, 2]]) + tri_area(x[[0, 2, 3]]))
                else:
                    ev.append(0.5 * (tri_area(x[[0, 1, 2]]) + tri_area(x[[0, 2, 3]])
                                     + tri_area(x[[0, 1, 3]]) + tri_area(x[[1, 2, 3]])))
            else:
                t = {4: '3_4', 6: '3_6', 8: '3_8'}[len(r)]
                _, w, _ = gen.physical_quad(coors, np.array([r]), t, 4)
                ev.append(w.sum())
        close(vol, np.array(ev), 1e-10, 1e-13, 'volumes of dim %d' % d)
    # Facet normals (outward for cells, unit) and surface facets.
    sf = {}
    if sdim == D and D > 1:
        nrm = cm.get_facet_normals()
        ccf = rows(cm.get_conn(D, D - 1))
        k = 0
        for i, (c, t) in enumerate(zip(oc, types)):
            cc = coors[list(c)].mean(0)
            for j, f in enumerate(gen.facets(t)):
                x = coors[[c[v] for v in f]]
                if D == 2:
                    n = np.array([x[1, 1] - x[0, 1], -(x[1, 0] - x[0, 0])])
                elif len(x) == 3:
                    n = np.cross(x[1] - x[0], x[2] - x[0])
                else:
                    n = np.cross(x[1] - x[0], x[3] - x[0]) + np.cross(x[3] - x[2], x[1] - x[2])
                n = n / np.linalg.norm(n)
                close(nrm[k], n, 1e-10, 1e-12, 'normal of facet %d of cell %d' % (j, i))
                # Outwardness is checked by the facet orientation for convex cells.
                check(n @ (x.mean(0) - cc) > 0, 'inward normal')
                k += 1
                sf.setdefault(frozenset(c[v] for v in f), []).append(i)
        check(len(nrm) == k, 'number of facet normals')
    if D > 1:
        exp = sorted(i for i, e in enumerate(ent[D - 1])
                     if sum(1 for c in oc if e <= set(c)) == 1)
        check(np.asarray(cm.get_surface_facets()).tolist() == exp, 'surface facets')
    # Mesh-level accessors.
    for k, d in enumerate(raw['descs']):
        conn, ids = dom.mesh.get_conn(d, ret_cells=True)
        check([tuple(r) for r in conn.tolist()] == [oc[i] for i in ids]
              and all(types[i] == d for i in ids) and len(ids) == len(raw['conns'][k]),
              'get_conn(%s)', d)
    close(mesh.get_bounding_box(), np.array([coors.min(0), coors.max(0)]), 0, 0, 'bounding box')
    check(dom.get_diameter() == (coors.max(0) - coors.min(0)).max(), 'diameter')
    if len(raw['descs']) == 1:
        g = mesh.create_conn_graph(verbose=False)
        exp = np.zeros((len(coors),) * 2, bool)
        for c in oc:
            exp[np.ix_(c, c)] = True
        check((g.toarray() != 0).tolist() == exp.tolist(), 'connectivity graph')
    shared = len(oc) > 1 and any(len(e & f) for i, e in enumerate(ent[D])
                                 for f in ent[D][:i])
    return {'nontrivial': bool(shared or case['mesh']['drop']),
            'classes': [case['mesh']['kind'], 'sdim%d' % sdim,
                        'inv%d' % case['mesh'].get('inv', 0)]}


def run_sub(case):
    """Sub-meshes made of entities of a given dimension; copies."""
    mesh, raw = gen.mesh(case['mesh'])
    dom = FEDomain('d', mesh)
    cm = dom.cmesh
    D = cm.tdim
    dent = 1 + case['dent'] % D
    n = int(np.asarray(cm.num)[dent])
    sel = np.unique([s % n for s in case['sel']]).astype(np.uint32)
    cm.setup_connectivity(dent, 0)
    vl = rows(cm.get_conn(dent, 0))
    loc = case['localize']
    new = cm.create_new(sel, dent, localize=bool(loc))
    check(new.tdim == dent and new.n_el == len(sel), 'shape of a sub-mesh')
    got = rows(new.get_conn(dent, 0))
    vs = sorted(set(v for s in sel for v in vl[s]))
    if loc:
        check(new.n_coor == len(vs), 'unused vertices not stripped')
        close(new.coors, raw['coors'][vs], 0, 0, 'sub-mesh coordinates')
        check((np.asarray(new.vertex_groups) == raw['ngroups'][vs]).all(), 'vertex groups')
        check([[vs[i] for i in r] for r in got] == [vl[s] for s in sel], 'sub-mesh cells')
    else:
        close(new.coors, raw['coors'], 0, 0, 'sub-mesh coordinates')
        check(got == [vl[s] for s in sel], 'sub-mesh cells')
    if dent == D:
        cg = np.concatenate(raw['mat_ids'])
        check((np.asarray(new.cell_groups) == cg[sel]).all(), 'cell groups of a sub-mesh')
    # The sub-mesh is independent of the original one and is a usable mesh.
    mesh2 = Mesh('sub', cmesh=new)
    c0 = raw['coors'].copy()
    mesh2.coors[:] += 1.0
    close(mesh.coors, c0, 0, 0, 'original changed through a sub-mesh')
    mesh2.coors[:] -= 1.0
    dom2 = FEDomain('d2', mesh2)
    cm2 = dom2.cmesh
    vol = cm.get_volumes(dent)[sel]
    if not (dent == 3 or case['mesh']['kind'] == '2_mix'):
        close(cm2.get_volumes(dent), vol, 1e-12, 1e-14, 'volumes of a sub-mesh')
    cp = mesh.copy()
    cp.coors[:] = 0.0
    close(mesh.coors, c0, 0, 0, 'original changed through a copy')
    check(cp.n_el == mesh.n_el and list(cp.descs) == list(mesh.descs), 'mesh copy')
    # Coordinate transformations.
    rs = np.random.RandomState(case['order'])
    dim = c0.shape[1]
    m = rs.uniform(-1, 1, (dim, dim + 1 if case['shuffle'] else dim))
    mesh.transform_coors(m)
    exp = c0 @ m[:, :dim].T + (m[:, dim] if m.shape[1] > dim else 0)
    close(mesh.coors, exp, 1e-12, 1e-14, 'transformed coordinates')
    ref = rs.uniform(-1, 1, c0.shape)
    mesh.transform_coors(m, ref_coors=ref)
    exp = ref @ m[:, :dim].T + (m[:, dim] if m.shape[1] > dim else 0)
    close(mesh.coors, exp, 1e-12, 1e-14, 'transformed reference coordinates')
    ctr = rs.uniform(-1, 1, dim)
    mesh.set_centre(ctr)
    bb = mesh.get_bounding_box()
    close(bb.mean(0), ctr, 1e-12, 1e-13, 'centre')
    close(mesh.coors - mesh.coors[0], exp - exp[0], 1e-11, 1e-12, 'set_centre is a translation')
    return {'nontrivial': len(sel) > 1, 'classes': ['dent%d' % dent]}


ints = st.integers(0, 60)


def strat(item):
    sdim = {'1_2': [1, 2, 3], '2_3': [2, 2, 3], '2_4': [2, 2, 3]}.get(item, None)
    kw = {}
    if sdim:
        kw['sdim'] = st.sampled_from(sdim)
    mesh = gen.cases([item], max_cells=3 if item[0] == '2' else None,
                     inv=st.integers(0, 1) if item != '3_6' else 0, **kw)
    return st.fixed_dictionaries({
        'mesh': mesh,
        'ops': st.lists(st.tuples(st.integers(0, 1), st.integers(0, 3), st.integers(0, 3)),
                        max_size=8),
        'order': st.integers(0, 1000), 'shuffle': st.booleans(),
        'queries': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3),
                                      st.lists(ints, max_size=12)), max_size=4)})


def strat_sub(item):
    return st.fixed_dictionaries({
        'mesh': gen.cases([item]), 'dent': st.integers(0, 2),
        'sel': st.lists(ints, min_size=1, max_size=10), 'localize': st.booleans(),
        'order': st.integers(0, 1000), 'shuffle': st.booleans()})


KINDS = ['1_2', '2_3', '2_4', '2_mix', '3_4', '3_8']
SUBS = [Sub('topology', strat, run, n=120, items=KINDS, shards=2),
        Sub('submesh', strat_sub, run_sub, n=60, items=KINDS, shards=1)]
