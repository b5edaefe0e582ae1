"""M04: writing a mesh and reading it back preserves the mesh."""
import contextlib
import io as sio
import os
import shutil
import sys
import tempfile

import numpy as np
import hypothesis.strategies as st

import gen
from harness import Sub, check, close

from sfepy.discrete.fem import Mesh
from sfepy.discrete.fem.meshio import MeshIO
from sfepy.scripts import convert_mesh

PROP = 'M04'
RULE = ('Cases: random meshes (lines to hexahedra, wedges, mixed kinds, with or without facet cells, '
        'dropped cells, any numbering and groups, tiny to huge coordinates, unused vertices) written '
        'and read by chains of formats, and random option sets of the mesh converter.  The read '
        'mesh is compared with the original arrays (transformed by an independent model for the '
        'converter).  Non-trivial: at least two cells, for formats storing groups also at least two '
        'different groups.')
ASSUMPTIONS = ['only formats whose third-party library is installed (no h5py, netCDF4), and mesh '
               'kinds the format can hold', 'vertices keep their order, cells may be reordered',
               'formats without groups return default groups (not compared)',
               'gmsh holds one kind of 3D cells; xyz and others without cell groups one kind']

ALL = ('1_2', '2_3', '2_4', '2_mix', '3_4', '3_8', '3_6')
# name: (suffix, file format argument, kinds, facet cells allowed, groups, exact coordinates)
FORMATS = {
    'abaqus': ('.inp', 'abaqus', ALL, True, True, False),
    'medit': ('.mesh', 'medit', ALL, True, True, False),
    'meditb': ('.meshb', 'medit', ALL[1:], True, True, True),
    'vtk': ('.vtk', 'vtk', ALL, True, True, True),
    'vtk-ascii': ('.vtk', 'vtk-ascii', ALL, True, True, False),
    'vtk-binary': ('.vtk', 'vtk-binary', ALL, True, True, True),
    'vtu': ('.vtu', 'vtu', ALL, True, True, True),
    'hdf5': ('.h5', 'hdf5', ALL, True, True, True),
    'hdf5-xdmf': ('.h5x', 'hdf5-xdmf', ('3_4', '3_8'), False, True, True),
    'gmsh': ('.msh', 'gmsh', ('3_4', '3_8', '3_6'), False, True, False),
    'xyz': ('.xyz', 'xyz', ('1_2', '2_3', '2_4', '3_4', '3_8', '3_6'), False, False, False),
    'netgen': ('.vol', 'netgen', ('2_3', '2_4', '3_4', '3_8', '3_6'), False, False, False),
    'su2': ('.su2', 'su2', ('2_3', '2_4', '3_4', '3_8', '3_6'), False, False, False),
}
KEEP = [f for f, v in FORMATS.items() if v[2] == ALL and v[4]]


def add_facets(r, seed, frac):
    """Add boundary facets as cells of the lower dimension."""
    rs = np.random.RandomState(seed)
    out = {}
    for key, fs in sorted(gen.boundary_facets(r['conns'], r['descs']).items()):
        if rs.rand() < frac or not out:
            out.setdefault(len(key), []).append(fs[0][3])
    dim = int(r['descs'][0][0]) - 1
    cells = {}
    for n, v in out.items():
        cells['%d_%d' % (dim, n)] = np.array(v, dtype=np.int32)
    descs, conns, mats = list(r['descs']), list(r['conns']), list(r['mat_ids'])
    for d in sorted(cells):
        descs.append(d)
        conns.append(cells[d])
        mats.append(rs.randint(0, 5, len(cells[d])).astype(np.int32))
    order = np.argsort([int(d[0]) * 1000 + int(d[2]) for d in descs])
    if seed % 2:
        order = order[::-1]
    r['descs'] = [descs[i] for i in order]
    r['conns'] = [conns[i] for i in order]
    r['mat_ids'] = [mats[i] for i in order]
    return r


def build(case):
    r = gen.raw(case['mesh'])
    rs = np.random.RandomState(case['seed'])
    r['coors'] = r['coors'] * case['mag'] + case['off'] * case['mag']
    if case.get('facets'):
        r = add_facets(r, case['seed'], 0.5)
    if case.get('extra'):
        # Vertices not used by any cell.
        k = case['extra']
        lo, hi = r['coors'].min(0), r['coors'].max(0)
        r['coors'] = np.r_[r['coors'], rs.uniform(lo, hi, (k, r['coors'].shape[1]))]
        r['ngroups'] = np.r_[r['ngroups'], rs.randint(0, 4, k)].astype(np.int32)
    vals = np.unique(rs.choice([0, 1, 2, 3, 5, 7, 10, 12, 100, 2345], 10))
    if case.get('bigroups'):
        r['ngroups'] = vals[np.minimum(r['ngroups'], len(vals) - 1)].astype(np.int32)
        r['mat_ids'] = [vals[np.minimum(m, len(vals) - 1)].astype(np.int32)
                        for m in r['mat_ids']]
    if case.get('disjoint'):
        # The third-party abaqus reader keeps only the last block of a cell set.
        r['mat_ids'] = [(m + 5000 * i).astype(np.int32) for i, m in enumerate(r['mat_ids'])]
    return r


def to_mesh(r):
    return Mesh.from_data('m', r['coors'].copy(), r['ngroups'].copy(),
                          [c.copy() for c in r['conns']], [c.copy() for c in r['mat_ids']],
                          list(r['descs']))


def cellset(conn, mats):
    if mats is None:
        return sorted(tuple(c) for c in np.asarray(conn).tolist())
    return sorted(tuple(c) + (int(m),) for c, m in zip(np.asarray(conn).tolist(), mats))


def compare(m, r, groups, exact, msg, rtol=1e-14):
    """Check a mesh (through its public interface) against arrays."""
    x = r['coors']
    check(m.coors.shape == x.shape, '%s: shape of coordinates %s', msg, (m.coors.shape, x.shape),
          key='coors')
    check(m.coors.dtype == np.float64, '%s: type of coordinates %s', msg, m.coors.dtype)
    if exact:
        check((m.coors == x).all(), '%s: coordinates', msg, key='coors')
    else:
        close(m.coors, x, rtol, 0.0, '%s: coordinates' % msg, key='coors',
              scale=np.abs(x).max())
    check(m.n_nod == len(x) and m.n_el == sum(len(c) for c in r['conns']), '%s: sizes', msg)
    check(set(m.descs) == set(r['descs']), '%s: kinds %s instead of %s', msg, list(m.descs),
          r['descs'], key='kinds')
    if groups:
        check((np.asarray(m.cmesh.vertex_groups) == r['ngroups']).all(), '%s: vertex groups %s %s',
              msg, np.asarray(m.cmesh.vertex_groups), r['ngroups'], key='vertex groups')
    tdim = max(int(d[0]) for d in r['descs'])
    check(m.dim == x.shape[1], '%s: dimension', msg)
    for d, c, g in zip(r['descs'], r['conns'], r['mat_ids']):
        conn, cells = m.get_conn(d, ret_cells=True, tdim=int(d[0]))
        gg = np.asarray(m.get_cmesh(d).cell_groups)[cells]
        check(cellset(conn, None) == cellset(c, None), '%s: cells %s', msg, d, key='cells')
        if groups:
            check(cellset(conn, gg) == cellset(c, g), '%s: cell groups %s: %s %s', msg, d, gg, g,
                  key='cell groups')
    check(m.cmesh.tdim == tdim, '%s: topological dimension', msg)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='m04')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def nontrivial(r, groups=True):
    n = sum(len(c) for c in r['conns'])
    g = len(np.unique(np.concatenate(r['mat_ids']))) > 1 and len(np.unique(r['ngroups'])) > 1
    return n > 1 and (g or not groups)


def run_rw(case):
    r = build(case)
    m = to_mesh(r)
    compare(m, r, True, True, 'original')
    last = None
    with Scratch() as tmp:
        for i, (fmt, guess) in enumerate(case['chain']):
            suf, ff, kinds, facets, groups, exact = FORMATS[fmt]
            fn = os.path.join(tmp, 'm%d%s' % (i, suf))
            amb = suf == '.meshb'  # the same format in meshio
            m.write(fn, file_format=None if guess and not amb else ff)
            if not exact:
                last = 'ascii'
            msg = '%s%s' % (fmt, ' (after %s)' % case['chain'][i - 1][0] if i else '')
            m2 = Mesh.from_file(fn, file_format=None if guess else ff.split('-asc')[0]
                                .split('-bin')[0])
            compare(m2, r, groups, exact and last is None, msg)
            compare(m, r, True, last is None, '%s: written mesh changed' % msg)
            io = MeshIO.any_from_filename(fn)
            check(io.read_dimension() == r['coors'].shape[1], '%s: read_dimension', msg,
                  key='dimension')
            if hasattr(type(io), 'read_bounding_box'):
                bb = io.read_bounding_box()
                bb2, dim = io.read_bounding_box(ret_dim=True)
                exp = np.array([r['coors'].min(0), r['coors'].max(0)])
                close(bb, exp, 1e-13, 0, '%s: bounding box' % msg, key='bounding box',
                      scale=np.abs(exp).max())
                check(dim == exp.shape[1] and (bb2 == bb).all(), '%s: bounding box', msg)
            if case['omit'] and fmt not in ('hdf5', 'hdf5-xdmf', 'xyz'):
                m3 = Mesh.from_file(fn, omit_facets=True)
                td = max(int(d[0]) for d in r['descs'])
                k = [j for j, d in enumerate(r['descs']) if int(d[0]) == td]
                sub = dict(r, descs=[r['descs'][j] for j in k], conns=[r['conns'][j] for j in k],
                           mat_ids=[r['mat_ids'][j] for j in k])
                compare(m3, sub, groups, exact and last is None, '%s, omit_facets' % msg)
            if groups:
                m = m2
    return {'nontrivial': nontrivial(r, groups),
            'classes': [case['mesh']['kind'], 'facets' if case['facets'] else 'plain']
            + [c[0] for c in case['chain']]}


@st.composite
def s_rw(draw, item=None):
    suf, ff, kinds, facets, groups, exact = FORMATS[item]
    mesh = draw(gen.cases(kinds, n_ng=4, n_mat=4))
    same = [f for f in KEEP if mesh['kind'] in FORMATS[f][2]]
    pre = draw(st.lists(st.sampled_from(same), max_size=2))
    chain = pre + [item]
    # Tests of unused vertices and facet cells only where the format can hold them.
    fc = facets and mesh['kind'] not in ('1_2',) and draw(st.booleans())
    ok_extra = item not in ('gmsh', 'netgen', 'su2')
    return dict(mesh=mesh, chain=[(f, draw(st.booleans())) for f in chain],
                facets=fc, seed=draw(st.integers(0, 10 ** 6)),
                disjoint='abaqus' in chain,
                extra=draw(st.sampled_from([0, 0, 0, 1, 3])) if ok_extra else 0,
                bigroups=draw(st.booleans()) and groups, omit=draw(st.booleans()),
                mag=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-7, 1e5])),
                off=draw(st.sampled_from([0.0, 0.5, -3.25])))


# --- the converter -----------------------------------------------------------------------------

def vols(r):
    out = []
    for d, c in zip(r['descs'], r['conns']):
        if int(d[0]) == r['coors'].shape[1]:
            out.append(gen.physical_quad(r['coors'], c, d, 4)[1].sum(1))
    return out


def run_conv(case):
    r = build(case)
    dim = r['coors'].shape[1]
    opts = case['opts']
    args = []
    x = r['coors']
    for k in case['order']:
        if k not in opts:
            continue
        v = opts[k]
        txt = v if isinstance(v, str) else None
        if k in ('scale', 'center'):
            v = v if isinstance(v, (int, float)) else v[:dim]
            txt = repr(v) if isinstance(v, (int, float)) else ','.join(repr(u) for u in v)
        if k in ('3d', '2d', 'tri-tetra', 'merge', 'cell-vertices-only', 'remap-vertex-groups',
                 'remap-cell-groups', 'save-per-mat'):
            args.append('--' + k)
        elif k == 'rot':
            args += ['--rot-axis=' + (v[0] if isinstance(v[0], str)
                                      else ','.join(repr(u) for u in v[0])),
                     '--rot-angle=%r' % v[1]]
        elif k == 'format':
            args.append('--format=' + v)
        elif k == 'refine':
            args.append('--refine=%d' % v)
        elif k == 'cell-dim':
            args.append('--cell-dim=' + ','.join('%d' % u for u in v))
        elif k == 'extract-by-matid':
            args.append('--extract-by-matid=%s' % (v,))
        else:
            args.append('--%s=%s' % (k, txt))

    def keep(sel):
        for key in ('descs', 'conns', 'mat_ids'):
            r[key] = [r[key][i] for i in sel]

    with Scratch() as tmp:
        src = os.path.join(tmp, 'in' + FORMATS[case['src']][0])
        to_mesh(r).write(src, file_format=FORMATS[case['src']][1])
        # The model.
        if 'cell-dim' in opts:
            keep([i for i, d in enumerate(r['descs']) if int(d[0]) in opts['cell-dim']])
        if '2d' in opts:
            keep([i for i, d in enumerate(r['descs']) if int(d[0]) == 2])
            x = x[:, :2]
        elif '3d' in opts:
            x = np.c_[x, np.zeros((len(x), 3 - dim))]
        dim = x.shape[1]
        if 'remap-vertex-groups' in opts:
            r['ngroups'] = np.unique(r['ngroups'], return_inverse=True)[1].astype(np.int32)
        if 'remap-cell-groups' in opts:
            u = np.unique(np.concatenate(r['mat_ids']))
            r['mat_ids'] = [np.searchsorted(u, g).astype(np.int32) for g in r['mat_ids']]
        if 'scale' in opts:
            v = opts['scale']
            x = x * (np.array(v[:dim]) if not isinstance(v, (int, float)) else v)
        if 'center' in opts:
            v = opts['center']
            c = 0.5 * (x.min(0) + x.max(0))
            x = x - c + (np.array(v[:dim]) if not isinstance(v, (int, float)) else v)
        if 'rot' in opts:
            ax, ang = opts['rot']
            ax = np.array({'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}[ax]
                          if isinstance(ax, str) else ax, dtype=float)
            ax /= np.linalg.norm(ax)
            a = -ang * np.pi / 180  # the coordinate system is rotated
            x = (x * np.cos(a) + np.cross(ax, x) * np.sin(a)
                 + np.outer(x @ ax, ax) * (1 - np.cos(a)))
        r['coors'] = x
        if 'cell-vertices-only' in opts:
            used = np.unique(np.concatenate([c.ravel() for c in r['conns']]))
            new = np.full(len(x), -1)
            new[used] = np.arange(len(used))
            r['coors'], r['ngroups'] = x[used], r['ngroups'][used]
            r['conns'] = [new[c] for c in r['conns']]
        if 'extract-by-matid' in opts:
            v = opts['extract-by-matid']
            f = ((lambda g: np.isin(g, v)) if isinstance(v, list) else
                 (lambda g: (g >= v[0]) & (g <= v[1])) if isinstance(v, tuple) else
                 (lambda g: g == v))
            sel = [f(g) for g in r['mat_ids']]
            if not any(s.any() for s in sel):
                return {'nontrivial': False}
            r['conns'] = [c[s] for c, s in zip(r['conns'], sel)]
            r['mat_ids'] = [c[s] for c, s in zip(r['mat_ids'], sel)]
            keep([i for i, c in enumerate(r['conns']) if len(c)])
            used = np.unique(np.concatenate([c.ravel() for c in r['conns']]))
            new = np.full(len(r['coors']), -1)
            new[used] = np.arange(len(used))
            r['coors'], r['ngroups'] = r['coors'][used], r['ngroups'][used]
            r['conns'] = [new[c] for c in r['conns']]
        suf, ff, kinds, facets, groups, exact = FORMATS[case['dst']]
        dst = os.path.join(tmp, 'out' + ('.xx' if case['forced'] else suf))
        if case['forced']:
            args.append('--format=' + ff)
        tol = 1e-12 if case['dst'] != 'vtu' else 3e-11  # 12 digits
        argv = sys.argv
        sys.argv = ['convert'] + (args + [src, dst] if case['first'] else [src, dst] + args)
        try:
            with contextlib.redirect_stdout(sio.StringIO()):
                convert_mesh.main()
        finally:
            sys.argv = argv
        m = Mesh.from_file(dst, file_format=ff.split('-')[0] if case['forced'] else None)
        if 'save-per-mat' in opts:
            g = r['mat_ids'][0]
            names = [f for f in os.listdir(tmp) if '_matid_' in f]
            check(sorted(names) == sorted('out_matid_%d%s' % (i, os.path.splitext(dst)[1])
                                          for i in np.unique(g)), 'saved files %s', names)
            for i in np.unique(g):
                mm = Mesh.from_file(os.path.join(tmp, 'out_matid_%d%s'
                                                 % (i, os.path.splitext(dst)[1])),
                                    file_format=ff.split('-')[0] if case['forced'] else None)
                compare(mm, dict(r, conns=[r['conns'][0][g == i]], mat_ids=[g[g == i]]),
                        groups, False, 'material %d' % i, tol)
    msg = 'converted with %s' % ' '.join(sorted(opts))
    if 'refine' in opts or 'tri-tetra' in opts or 'merge' in opts:
        v0 = vols(r)
        got = dict(coors=np.asarray(m.coors), descs=list(m.descs), conns=[m.get_conn(d) for d in
                                                                         m.descs])
        grp = [np.asarray(m.get_cmesh(d).cell_groups)[m.get_conn(d, ret_cells=True)[1]]
               for d in m.descs]
        v1 = vols(got)
        n0, n1 = sum(len(v) for v in v0), sum(len(v) for v in v1)
        f = 1
        if 'refine' in opts:
            f *= (2 ** dim) ** opts['refine']
        if 'tri-tetra' in opts and '_3' not in r['descs'][0] and r['descs'][0] in ('2_4', '3_8'):
            f *= {'2_4': 2, '3_8': 6}[r['descs'][0]]
            check(list(m.descs) == [{'2_4': '2_3', '3_8': '3_4'}[r['descs'][0]]],
                  '%s: kinds %s', msg, m.descs)
        if 'tri-tetra' in opts and r['descs'][0] == '3_8':
            check(n1 in (5 * n0 * f // 6, n0 * f), '%s: number of cells %d', msg, n1)
        else:
            check(n1 == n0 * f, '%s: number of cells %d %d', msg, n1, n0 * f)
        check(all((v > 0).all() for v in v1), '%s: cell volumes', msg)
        for g in np.unique(np.concatenate(r['mat_ids'])):
            a = sum(v[k == g].sum() for v, k in zip(v0, r['mat_ids']))
            b = sum(v[k == g].sum() for v, k in zip(v1, grp))
            close(b, a, 1e-9 if 'tri-tetra' not in opts or dim < 3 else 0.5, 0,
                  '%s: volume of material %d' % (msg, g))
        lo, hi = r['coors'].min(0), r['coors'].max(0)
        close(np.array([m.coors.min(0), m.coors.max(0)]), np.array([lo, hi]), 1e-10, 0,
              '%s: bounding box' % msg, scale=np.abs([lo, hi]).max())
        if 'merge' in opts and not ('refine' in opts or 'tri-tetra' in opts):
            compare(m, r, groups, False, msg, tol)
    else:
        compare(m, r, groups, False, msg, tol)
    return {'nontrivial': nontrivial(r, groups) and bool(opts),
            'classes': sorted(opts) + ['%s-%s' % (case['src'], case['dst'])]}


@st.composite
def s_conv(draw, item=None):
    mesh = draw(gen.cases(ALL if item != 'topo' else ('2_3', '2_4', '3_4', '3_8'),
                          n_ng=4, n_mat=4, **({'jit': 0} if item == 'topo' else {})))
    dim = int(mesh['kind'][0])
    c = dict(mesh=mesh, seed=draw(st.integers(0, 10 ** 6)), mag=1.0,
             off=draw(st.sampled_from([0.0, 0.5, -3.25])), facets=False, extra=0,
             bigroups=draw(st.booleans()), first=draw(st.booleans()))
    full = [f for f in KEEP if f not in ('vtk-ascii', 'vtk-binary', 'meditb')]
    opts = {}
    nums = st.sampled_from([0.5, 2.0, 1.25, 3.0])
    offs = st.sampled_from([0.5, -2.0, 1.25, 0.0])
    b = st.booleans()
    if draw(b):
        opts['scale'] = draw(nums) if draw(b) else [draw(nums) for _ in range(dim)]
    if draw(b):
        opts['center'] = draw(offs) if draw(b) else [draw(offs) for _ in range(dim)]
    if draw(b):
        opts['remap-vertex-groups'] = True
    if draw(b):
        opts['remap-cell-groups'] = True
    if item == 'topo':
        k = draw(st.sampled_from(['refine', 'tri-tetra', 'merge', 'both']))
        c['mesh']['drop'] = 0
        if k in ('refine', 'both'):
            opts['refine'] = draw(st.integers(1, 2)) if dim < 3 and k == 'refine' else 1
        if k in ('tri-tetra', 'both'):
            opts['tri-tetra'] = True
        if k == 'merge':
            opts['merge'] = True
    elif item == 'cells':
        if dim > 1 and mesh['kind'] != '3_6':
            c['facets'] = draw(b)
        k = draw(st.sampled_from(['cell-dim', 'cell-vertices-only', 'extract-by-matid', '2d',
                                  'save-per-mat', 'none']))
        if k == 'cell-dim':
            opts[k] = draw(st.sampled_from([[dim], [dim - 1, dim], [dim, dim - 1]]))
            c['extra'] = draw(st.integers(0, 2))
        elif k == 'cell-vertices-only':
            opts[k] = True
            c['extra'] = draw(st.integers(0, 2))
        elif k == 'extract-by-matid':
            v = [draw(st.integers(0, 3)), draw(st.integers(0, 3))]
            opts[k] = draw(st.sampled_from([v[0], v, (min(v), max(v))]))
            c['bigroups'] = False
            opts.pop('remap-cell-groups', None)
        elif k == '2d' and dim == 2:
            opts[k] = True
        elif k == 'save-per-mat' and mesh['kind'] != '2_mix' and not c['facets']:
            opts[k] = True
        if c['facets']:
            # The remapping is documented for cells only, groups of facet cells are no materials.
            opts.pop('remap-cell-groups', None)
    else:
        if dim < 3 and draw(st.sampled_from([0, 0, 1])):
            opts['3d'] = True
            opts.pop('scale', None), opts.pop('center', None)
        if dim == 3 and draw(b):
            ax = draw(st.sampled_from(['x', 'y', 'z', [1.0, 2.0, -1.0], [0.0, 1.0, 1.0]]))
            opts['rot'] = (ax, draw(st.sampled_from([90.0, 30.0, -45.0, 200.0])))
    c['opts'] = opts
    c['order'] = draw(st.permutations(sorted(opts)))
    c['src'] = draw(st.sampled_from(full))
    c['forced'] = draw(st.sampled_from([False, False, True]))
    if opts.get('3d'):
        full = ['hdf5', 'medit', 'abaqus']
    c['dst'] = draw(st.sampled_from(full))
    if 'extract-by-matid' in opts:
        c['src'], c['dst'] = [f if f != 'abaqus' else 'vtk' for f in (c['src'], c['dst'])]
    c['order'] = [k for k in c['order'] if k in opts]
    c['disjoint'] = 'abaqus' in (c['src'], c['dst']) and 'extract-by-matid' not in opts
    if c['disjoint']:
        opts.pop('remap-cell-groups', None)
    return c


SUBS = [Sub('formats', s_rw, run_rw, 25, 400, items=sorted(FORMATS)),
        Sub('convert', s_conv, run_conv, 40, 600, items=['geometry', 'cells', 'topo'])]
