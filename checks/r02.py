"""R02: region facets, parents and mirrors address the right cells and nodes."""
import numpy as np
import hypothesis.strategies as st

import gen
from fe import fun_region, pick, rows
from harness import Sub, check, close, Skip

from sfepy.discrete.fem import FEDomain, Field, Mesh
from sfepy.discrete.fem.fe_surface import FESurface
from sfepy.discrete.common.region import Region

PROP = 'R02'
RULE = ('Cases: random permuted meshes with random cell sets as parents and random facet sets '
        '(surface, interior, empty, one- and two-sided); translated/split meshes for mirrors; '
        'fields of order 1-3 on random cell sets; random sub-regions of each kind.  '
        'Non-trivial: at least two facets (cells) in more than one cell.')
ASSUMPTIONS = ['cell kinds 2_3, 2_4, 3_4, 3_8; no mixed meshes in fields',
               'a mirror region is a translated copy of the region or the same facets with '
               'another parent']


class Info:
    def __init__(self, dom, raw):
        self.cm = cm = dom.cmesh
        self.D = D = cm.tdim
        self.desc = raw['descs'][0]
        self.cells = rows(cm.get_conn(D, 0))
        self.ents = {0: [frozenset([i]) for i in range(cm.n_coor)]}
        for d in range(1, D + 1):
            cm.setup_connectivity(d, 0)
            self.ents[d] = [frozenset(r) for r in rows(cm.get_conn(d, 0))]
        self.ids = {d: {e: i for i, e in enumerate(es)} for d, es in self.ents.items()}
        self.lf = gen.facets(self.desc)
        self.adj = {}
        for ic, c in enumerate(self.cells):
            for k, f in enumerate(self.lf):
                t = tuple(c[i] for i in f)
                self.adj.setdefault(self.ids[D - 1][frozenset(t)], []).append((ic, k, t))


def cyc_eq(a, b):
    """a is a cyclic shift of b (same orientation)."""
    return any(tuple(a) == tuple(b[k:]) + tuple(b[:k]) for k in range(len(b)))


def run_facets(case):
    dom, raw = gen.domain(case['mesh'])
    nf = Info(dom, raw)
    D = nf.D
    omega = dom.create_region('Omega', 'all')
    pm = pick(case['seed'], len(nf.cells), case['pfrac'] / 4.0)
    parent = fun_region(dom, 'P', pm)
    check(parent.cells.tolist() == np.where(pm)[0].tolist(), 'parent cells')
    fsel = np.where(pick(case['seed'] + 1, len(nf.ents[D - 1]), case['ffrac'] / 4.0))[0]
    use_parent = case['use_parent']
    if use_parent:
        # Facets of the parent region only.
        fsel = np.array([f for f in fsel if any(pm[a[0]] for a in nf.adj[f])], dtype=int)
    if case['surf']:
        fsel = np.array([f for f in fsel
                         if sum(1 for a in nf.adj[f] if pm[a[0]] or not use_parent) == 1],
                        dtype=int)
    if not len(fsel):
        raise Skip
    reg = Region.from_facets(fsel.astype(np.uint32), dom, name='F',
                             parent='P' if use_parent else None)
    reg.finalize()
    reg.update_shape()
    check(reg.facets.tolist() == fsel.tolist(), 'facets of a facet region')
    exp = []
    for f in fsel:
        exp += sorted((ic, k) for ic, k, t in nf.adj[f] if (not use_parent) or pm[ic])
    got = [tuple(r) for r in np.asarray(reg.get_facet_indices()).astype(int).tolist()]
    check(sorted(got) == sorted(exp), 'facet indices: %s, expected %s', got, exp)
    # The pairs are given facet by facet.
    fid = {(ic, k): f for f in nf.adj for ic, k, t in nf.adj[f]}
    check([fid[g] for g in got] == [fid[e] for e in exp], 'facet indices are not in the facet '
          'order: %s', got)
    check(reg.get_n_cells(is_surface=True) == len(fsel), 'number of facets')
    cells = np.asarray(reg.get_cells(true_cells_only=False)).astype(int).tolist()
    check(cells == [g[0] for g in got], 'cells of a facet region: %s vs %s', cells, got)
    try:
        reg.get_cells()
    except ValueError:
        pass
    else:
        check(False, 'true cells of a facet region')
    # Cell indices.
    for r, cc, tco in ((parent, np.where(pm)[0], True), (reg, np.array(cells), False)):
        q = np.random.RandomState(case['seed']).choice(cc, size=5)
        ii = r.get_cell_indices(q, true_cells_only=tco)
        check((cc[ii] == q).all(), 'cell indices %s of %s in %s', ii, q, cc)
    out = [i for i in range(len(nf.cells)) if not pm[i]]
    if out:
        try:
            parent.get_cell_indices(np.array([out[0]]))
        except ValueError:
            pass
        else:
            check(False, 'no error for a cell out of the region')
    # Surface connectivity.
    for srf in (FESurface.from_region('s', reg), dom.create_surface_group(reg)
                or dom.surface_groups[reg.name]):
        e = np.asarray(srf.econn)
        check(e.shape == (len(exp), len(nf.lf[0])), 'surface connectivity shape')
        check([tuple(r) for r in np.asarray(srf.fis).tolist()] == got, 'surface facets')
        for row, (ic, k) in zip(e.tolist(), got):
            t = [a[2] for a in nf.adj[fid[ic, k]] if a[:2] == (ic, k)][0]
            check(cyc_eq(row, t), 'surface connectivity of facet %s: %s, expected %s',
                  (ic, k), row, t)
        nodes = sorted(set(e.ravel().tolist()))
        check(np.asarray(srf.nodes).tolist() == nodes, 'surface nodes')
        check((np.asarray(srf.nodes)[srf.leconn] == e).all(), 'local surface connectivity')
    # Field surface connectivities of higher order.
    field = Field.from_args('u', np.float64, 'scalar', omega, approx_order=case['order'])
    field.setup_surface_data(reg)
    ec = np.asarray(field.get_econn('facet', reg))
    coors = field.get_coor()
    for row, (ic, k) in zip(ec, got):
        x = raw['coors'][list(next(t for a, b, t in nf.adj[fid[ic, k]] if (a, b) == (ic, k)))]
        nodes = np.asarray(field.econn[ic])
        inside = [n for n in nodes if on_entity(x, coors[n], D - 1)]
        check(sorted(row.tolist()) == sorted(inside), 'DOFs of facet %s: %s, expected %s',
              (ic, k), row, inside)
    # Extracted surface mesh.
    sm = Mesh.from_region(reg, dom.mesh, localize=case['loc'], is_surface=True)
    vs = sorted(set(v for f in fsel for v in nf.ents[D - 1][f]))
    sc = rows(sm.cmesh.get_conn(D - 1, 0))
    vmap = vs if case['loc'] else list(range(len(raw['coors'])))
    check([frozenset(vmap[v] for v in r) for r in sc] == [nf.ents[D - 1][f] for f in fsel],
          'cells of a surface mesh')
    close(sm.coors, raw['coors'][vmap], 0, 0, 'coordinates of a surface mesh')
    return {'nontrivial': len(fsel) > 1 and len(nf.cells) > 1,
            'classes': [case['mesh']['kind'], 'parent%d' % use_parent, 'surf%d' % case['surf']]}


def on_entity(x, p, d, eps=1e-8):
    """Is p on the (possibly curved) entity given by its vertices x?"""
    if d == 0:
        return np.abs(x[0] - p).max() < eps
    if d == 1:
        t = x[1] - x[0]
        s = (p - x[0]) @ t / (t @ t)
        return -eps < s < 1 + eps and np.abs(x[0] + s * t - p).max() < eps
    desc = '2_3' if len(x) == 3 else '2_4'
    xi = np.array([[0.35, 0.35]])
    for _ in range(40):
        bf, bg = gen.ref_shape(desc, xi)
        r = bf[0] @ x - p
        J = x.T @ bg[0]
        dx = np.linalg.lstsq(J, r, rcond=None)[0]
        xi = xi - dx
        if np.abs(dx).max() < 1e-13:
            break
    bf, bg = gen.ref_shape(desc, xi)
    ok = np.abs(bf[0] @ x - p).max() < eps
    return ok and (xi > -eps).all() and ((xi.sum() < 1 + eps) if len(x) == 3
                                         else (xi < 1 + eps).all())


def run_mirror(case):
    """Mirrors: interface seen from two parents, or translated boundaries."""
    rs = np.random.RandomState(case['seed'])
    kind = case['mesh']['kind']
    dim = int(kind[0])
    key = None
    if case['mode'] == 0:
        dom, raw = gen.domain(case['mesh'])
        nf = Info(dom, raw)
        pm = pick(case['seed'], len(nf.cells), 0.5)
        if pm.all():
            raise Skip
        p1 = fun_region(dom, 'P1', pm)
        p2 = fun_region(dom, 'P2', ~pm)
        ifs = [f for f, a in nf.adj.items() if len(a) == 2 and pm[a[0][0]] != pm[a[1][0]]]
        # Facets all of whose vertices are in the interface but which are not on it.
        if not len(ifs):
            raise Skip
        dn = {2: 's', 3: 's'}[dim]
        r1 = dom.create_region('G1', 'r.P1 *%s r.P2' % dn, 'facet', parent='P1')
        r2 = dom.create_region('G2', 'r.P2 *%s r.P1' % dn, 'facet', parent='P2')
        check(sorted(r1.facets.tolist()) == sorted(ifs), 'interface facets')
        trans = np.zeros(dim)
    else:
        # Two copies of a mesh, translated, numbered independently.
        m1, raw1 = gen.mesh(case['mesh'])
        n = len(raw1['coors'])
        trans = rs.uniform(-1, 1, dim) + 4.0
        perm = rs.permutation(n) if case['shuffle'] else np.arange(n)
        c2 = np.empty_like(raw1['coors'])
        c2[perm] = raw1['coors'] + trans
        conn1 = raw1['conns'][0]
        rot = np.array(gen.ROT[kind])[rs.randint(len(gen.ROT[kind]), size=len(conn1))]
        conn2 = perm[np.take_along_axis(conn1, rot, axis=1)][rs.permutation(len(conn1))] + n
        coors = np.r_[raw1['coors'], c2]
        conn = np.r_[conn1, conn2]
        p = rs.permutation(2 * n) if case['shuffle'] else np.arange(2 * n)
        x = np.empty_like(coors)
        x[p] = coors
        conn = p[conn][rs.permutation(len(conn))].astype(np.int32)
        mesh = Mesh.from_data('m', x, np.zeros(2 * n, np.int32), [conn],
                              [np.zeros(len(conn), np.int32)], [kind])
        dom = FEDomain('d', mesh)
        raw = dict(coors=x, descs=[kind])
        nf = Info(dom, raw)
        # A random facet set of the first copy and its translated image.
        first = set(p[:n].tolist())
        cand = [f for f, a in nf.adj.items() if len(a) == 1 and nf.ents[dim - 1][f] <= first]
        sel = [f for f in cand if rs.rand() < 0.6] or cand[:1]
        img = {}
        for v in first:
            d = np.abs(x - (x[v] + trans)).max(1)
            img[v] = int(d.argmin())
        sel2 = [nf.ids[dim - 1][frozenset(img[v] for v in nf.ents[dim - 1][f])] for f in sel]
        r1 = Region.from_facets(np.sort(sel).astype(np.uint32), dom, name='G1')
        r2 = Region.from_facets(np.sort(sel2).astype(np.uint32), dom, name='G2')
        for r in (r1, r2):
            r.finalize()
            r.update_shape()
            dom.regions.append(r)
        ifs = sel
        # The order of vertices in a facet and its image is the same?
        for f in sel:
            vs = sorted(nf.ents[dim - 1][f])
            if [img[v] for v in vs] != sorted(img[v] for v in vs):
                key = 'mirror-shift-numbering'
    named = case['named'] or case['mode'] == 1
    r1.extra_options = {'mirror_region': 'G2'} if case['opts'] and named else None
    if r1.extra_options is not None:
        name = r1.setup_mirror_region(ret_name=True)
    elif named:
        name = r1.setup_mirror_region('G2', ret_name=True)
    else:
        name = r1.setup_mirror_region(ret_name=True)
    check(name == 'G2' and r1.get_mirror_region('G2') is r2
          and r2.get_mirror_region('G1') is r1, 'mirror regions')
    if case['again']:
        if named:
            check(r1.setup_mirror_region('G2', ret_name=True) == 'G2', 'repeated set up')
    omega = dom.create_region('Omega', 'all')
    field = Field.from_args('u', np.float64, 'scalar', omega, approx_order=1)
    x = raw['coors']
    for a, b, sh in ((r1, r2, trans), (r2, r1, -trans)):
        srf = FESurface.from_region('s', a)
        srf2 = FESurface.from_region('s2', b)
        srf.setup_mirror_connectivity(a, b.name)
        me = np.asarray(srf.get_connectivity(trace_region=b.name))
        ml = np.asarray(srf.get_connectivity(local=True, trace_region=b.name))
        e2 = np.asarray(srf2.get_connectivity())
        check(me.shape == e2.shape, 'mirror connectivity shape')
        close(x[me] + sh, x[e2], 1e-10, 1e-10, 'mirror connectivity does not pair '
              'coinciding nodes (%s -> %s)' % (a.name, b.name), key=key)
        check((np.unique(me)[ml] == me).all(), 'local mirror connectivity')
        field.setup_surface_data(a, b.name)
        fe = np.asarray(field.get_econn('facet', a, trace_region=b.name))
        close(field.get_coor()[fe] + sh, x[e2], 1e-10, 1e-10, 'field mirror connectivity', key=key)
    return {'nontrivial': len(ifs) > 1, 'classes': ['%s/mode%d' % (kind, case['mode'])]}


def run_dofs(case):
    dom, raw = gen.domain(case['mesh'])
    nf = Info(dom, raw)
    D, desc = nf.D, nf.desc
    pm = pick(case['seed'], len(nf.cells), case['pfrac'] / 4.0)
    freg = fun_region(dom, 'P', pm)
    field = Field.from_args('u', np.float64, case['shape'], freg, approx_order=case['order'])
    # Entity carrying each node.
    nodes = {}
    econn = np.asarray(field.econn)
    coors = field.get_coor()
    ps = field.poly_space
    fc = np.where(pm)[0]
    check(econn.shape[0] == len(fc), 'cells of a field')
    xi = np.asarray(ps.node_coors)
    supp = []
    for p in xi:
        bf, _ = gen.ref_shape(desc, p[None])
        supp.append([i for i in range(len(gen.REF[desc])) if bf[0, i] > 1e-12])
    for ic, row in zip(fc, econn):
        c = nf.cells[ic]
        for n, s, p in zip(row, supp, xi):
            e = frozenset(c[i] for i in s)
            check(nodes.setdefault(int(n), e) == e, 'a DOF shared by different entities')
            bf, _ = gen.ref_shape(desc, p[None])
            close(coors[n], bf[0] @ raw['coors'][list(c)], 1e-10, 1e-12, 'node coordinates')
    check(sorted(nodes) == list(range(field.n_nod)), 'unused DOFs')
    dims = {}
    for n, e in nodes.items():
        for d in range(D + 1):
            if e in nf.ids[d]:
                dims[n] = (d, nf.ids[d][e])
    # Any region.
    kinds = ['cell', 'facet', 'vertex'] + (['edge'] if D == 3 else [])
    kind = kinds[case['kind'] % len(kinds)]
    kd = {'cell': D, 'facet': D - 1, 'vertex': 0, 'edge': 1}[kind]
    sel = np.where(pick(case['seed'] + 7, len(nf.ents[kd]), case['ffrac'] / 4.0))[0]
    reg = Region('R', 'given', dom, '', kind=kind)
    if kind == 'cell':
        reg.cells = sel
    elif kind == 'facet':
        reg.facets = sel
    elif kind == 'edge':
        reg.edges = sel
    else:
        reg.vertices = sel
    reg.finalize()
    reg.update_shape()
    ent = {kd: set(sel.tolist())}
    for d in range(kd):
        ent[d] = set(j for i in sel for j, e in enumerate(nf.ents[d]) if e <= nf.ents[kd][i])
    exp = sorted(n for n, (d, i) in dims.items() if i in ent.get(d, ()))
    got = field.get_dofs_in_region(reg)
    check(sorted(np.asarray(got).tolist()) == exp,
          'DOFs in a %s region: %s, expected %s', kind, sorted(got), exp)
    parts = field.get_dofs_in_region(reg, merge=False)
    by = {0: 0, 1: 1, 2: 2, 3: 3}
    if D == 2:
        by = {0: 0, 1: 1, 2: 3}
    for d in range(D + 1):
        e = sorted(n for n in exp if dims[n][0] == d)
        check(sorted(np.asarray(parts[by[d]]).tolist()) == e,
              'unmerged DOFs of dimension %d: %s vs %s', d, parts[by[d]], e)
    # Characteristic functions and edge graphs.
    chv = reg.get_charfun()
    check(chv.tolist() == [1.0 if i in ent[0] else 0.0 for i in range(len(raw['coors']))],
          'vertex characteristic function')
    chi = reg.get_charfun(val_by_id=True)
    check(chi.tolist() == [i + 1.0 if i in ent[0] else 0.0 for i in range(len(raw['coors']))],
          'vertex ids')
    if kind == 'cell':
        chc = reg.get_charfun(by_cell=True)
        check(chc.tolist() == [1.0 if i in ent[D] else 0.0 for i in range(len(nf.cells))],
              'cell characteristic function')
        chi = reg.get_charfun(by_cell=True, val_by_id=True)
        check(chi.tolist() == [i + 1.0 if i in ent[D] else 0.0 for i in range(len(nf.cells))],
              'cell ids')
        sm = Mesh.from_region(reg, dom.mesh, localize=case['loc'])
        vm = sorted(ent[0]) if case['loc'] else list(range(len(raw['coors'])))
        close(sm.coors, raw['coors'][vm], 0, 0, 'coordinates of a region mesh')
        check([tuple(vm[v] for v in r) for r in rows(sm.cmesh.get_conn(D, 0))]
              == [nf.cells[i] for i in sel], 'cells of a region mesh')
        cg = np.concatenate(raw['mat_ids'])
        check((np.asarray(sm.cmesh.cell_groups) == cg[sel]).all(), 'groups of a region mesh')
        check((np.asarray(sm.cmesh.vertex_groups) == raw['ngroups'][vm]).all(),
              'vertex groups of a region mesh')
    if 1 in ent and len(ent[1]):
        g = reg.get_edge_graph().toarray()
        n = g.shape[0]
        exp = np.zeros((n, n))
        for i in ent[1]:
            a, b = sorted(nf.ents[1][i])
            exp[a, b] = exp[b, a] = i + 1
        check((g == exp).all(), 'edge graph')
    return {'nontrivial': len(sel) > 1 and len(nf.cells) > 1,
            'classes': ['%s/%s' % (case['mesh']['kind'], kind), 'order%d' % case['order']]}


KINDS = ['2_3', '2_4', '3_4', '3_8']


def st_facets(item):
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=3), 'seed': st.integers(0, 10 ** 6),
        'pfrac': st.integers(1, 5), 'ffrac': st.integers(1, 5), 'use_parent': st.booleans(),
        'surf': st.booleans(), 'order': st.integers(1, 3), 'loc': st.booleans()})


def st_mirror(item):
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=2 if item[0] == '3' else 3),
        'seed': st.integers(0, 10 ** 6),
        'mode': st.integers(0, 1), 'shuffle': st.booleans(), 'named': st.booleans(), 'opts': st.booleans(),
        'again': st.booleans()})


def st_dofs(item):
    return st.fixed_dictionaries({
        'mesh': gen.cases([item], max_cells=2), 'seed': st.integers(0, 10 ** 6),
        'pfrac': st.integers(1, 5), 'ffrac': st.integers(1, 5), 'kind': st.integers(0, 3),
        'order': st.integers(1, 3), 'loc': st.booleans(),
        'shape': st.sampled_from(['scalar', 'vector'])})


SUBS = [Sub('facets', st_facets, run_facets, n=60, items=KINDS, shards=2),
        Sub('mirror', st_mirror, run_mirror, n=60, items=KINDS, shards=2),
        Sub('dofs', st_dofs, run_dofs, n=60, items=KINDS, shards=2)]
