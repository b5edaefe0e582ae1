"""Z01: compiled kernels never access memory out of bounds.

The generators and runs of other checks, with the extension modules built with
AddressSanitizer.  What they compute is judged by their own checks, here only
the sanitizer reports and crashes count.
"""
import importlib
import os
import resource
import signal

import numpy as np
from hypothesis import strategies as st

import sfepy.discrete  # noqa: F401 (import order)
from sfepy.discrete import FieldVariable, Integral, Integrals, Material, Materials, Variables
from sfepy.discrete.evaluate import create_evaluable, eval_equations
from sfepy.discrete.fem import FEDomain, Field, Mesh
from sfepy.mesh.mesh_generators import gen_block_mesh

import gen
from harness import Skip, Sub, Violation

PROP = 'Z01'
RULE = ('Cases of the other checks run on kernels instrumented by AddressSanitizer. Non-trivial: as in the '
        'check the case comes from, and cases rejected by the library after reaching it.')
ASSUMPTIONS = ['memory errors inside one allocation are not seen', 'gcc AddressSanitizer, -O1']

LOG = os.environ.get('VERIF_ASAN_LOG')
SEEN = {}
if LOG:
    # Endless reports: end the process.
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (32 << 20, 32 << 20))


def reports():
    """New sanitizer reports of this process."""
    name = os.path.join(LOG, 'asan.%d' % os.getpid())
    try:
        size = os.path.getsize(name)
    except OSError:
        return ''
    old = SEEN.get(name, 0)
    if size <= old:
        return ''
    with open(name, errors='replace') as fd:
        fd.seek(old)
        text = fd.read()
    SEEN[name] = size
    return text


def summarize(text, any_=False):
    for part in text.split('ERROR: AddressSanitizer: ')[1:]:
        lines = part.splitlines()
        frames = [x.strip() for x in lines if x.strip().startswith('#')]
        # The first stack is that of the access.
        n = next((i for i, x in enumerate(frames) if i and x.startswith('#0 ')), len(frames))
        own = [x for x in frames[:n] if any_ or 'sfepy/' in x or 'extmods' in x]
        if own:
            where = [x.split(' in ', 1)[-1].split(' /')[0] + ' ' + os.path.basename(x.rsplit('/', 1)[-1])
                     for x in own[:3]]
            return lines[0].split(' on ')[0] + ' in ' + ' < '.join(where), \
                where[0].split()[0]
    return None


def wrap(run):
    def fun(case):
        reports()
        skip = False
        info = {'nontrivial': True}
        try:
            info = run(case) or {}
        except Skip:
            skip = True
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception:
            pass
        msg = summarize(reports())
        if msg is not None:
            raise Violation(msg[0], key=msg[1])
        if skip:
            raise Skip('')
        return info
    return fun


# Sequences of CMesh calls.

def run_cmesh(case):
    reports()
    rs = np.random.RandomState(case['seed'])
    mesh, r = gen.mesh(case['mesh'])
    cm = FEDomain('d', mesh).cmesh
    td = cm.tdim
    kept = []
    done = []
    for op, a, b, seed, bad in case['ops']:
        rs = np.random.RandomState(seed)
        d1, d2 = a % (td + 1), b % (td + 1)
        done.append((op, d1, d2))

        def ents(d, none=True):
            n = int(cm.num[d])
            k = rs.randint(0 if none else 1, n + 2)
            ii = rs.randint(0, max(n, 1), k).astype(np.uint32) if rs.randint(2) else \
                rs.permutation(n)[:k].astype(np.uint32)
            if bad and len(ii):
                ii[rs.randint(len(ii))] = n + rs.choice([0, 1, 50])
            return ii
        try:
            if op == 'setup':
                cm.setup_connectivity(d1, d2)
            elif op == 'get':
                c = cm.get_conn(d1, d2)
                if c is not None:
                    kept += [c.indices, c.offsets]
            elif op == 'incident':
                e = ents(d2)
                ii, off = cm.get_incident(d1, e, d2, ret_offsets=True)
                if len(e):
                    cm.get_local_ids(e, d2, ii, off, d1)
            elif op == 'complete':
                cm.get_complete(d1, ents(d2), d2)
            elif op == 'centroids':
                cm.get_centroids(d1)
            elif op == 'volumes':
                cm.get_volumes(d1)
            elif op == 'orient':
                o = cm.get_orientations(d1)
                if o is not None:
                    o.tobytes()
            elif op == 'normals':
                cm.get_facet_normals([-1, 0, 1][b % 3])
            elif op == 'surface':
                cm.get_surface_facets()
            elif op == 'graph':
                cm.get_conn_as_graph(d1, d2)
            elif op == 'new':
                cm.create_new(ents(td), td, localize=bool(b % 2)) if a % 2 else cm.create_new()
        except (ValueError, RuntimeError, IndexError, TypeError, AttributeError, MemoryError):
            pass
        for x in kept:
            x.tobytes()
        msg = summarize(reports(), any_=True)
        if msg is not None:
            raise Violation('%s: %s' % (done, msg[0]), key=msg[1])
    return {'nontrivial': len(case['ops']) > 2, 'classes': [case['mesh']['kind']]}


CMESH_OPS = ['setup', 'get', 'incident', 'complete', 'centroids', 'volumes', 'orient', 'normals',
             'surface', 'graph', 'new']


def strat_cmesh(kind):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases([kind or '3_8'], max_cells=8), seed=st.integers(0, 10 ** 6),
        ops=st.lists(st.tuples(st.sampled_from(CMESH_OPS), st.integers(0, 3), st.integers(0, 3),
                               st.integers(0, 10 ** 6), st.sampled_from(BAD)).map(list), max_size=12)))


# Contact of two bodies.

def run_bodies(case):
    reports()
    rs = np.random.RandomState(case['seed'])
    dim = case['dim']
    n0, n1 = case['n']
    m0 = gen_block_mesh([1] * dim, [n0] * dim, [0] * dim, verbose=False)
    c = np.zeros(dim)
    c[-1] = 1 + case['gap']
    c[:-1] = rs.uniform(-0.5, 0.5, dim - 1) * case['shift']
    m1 = gen_block_mesh([case['size']] * (dim - 1) + [1], [n1] * (dim - 1) + [2], c, verbose=False)
    coors = np.r_[m0.coors, m1.coors]
    d = m0.descs[0]
    conn = np.r_[m0.get_conn(d), m1.get_conn(d) + m0.n_nod]
    mid = np.r_[np.zeros(m0.n_el), np.ones(m1.n_el)].astype(np.int32)
    dom = FEDomain('d', Mesh.from_data('m', coors, None, [conn], [mid], [d]))
    om = dom.create_region('Omega', 'all')
    dom.create_region('O0', 'cells of group 0')
    dom.create_region('O1', 'cells of group 1')
    a = 'xyz'[dim - 1]
    dom.create_region('C0', 'r.O0 *v vertices in (%s > 0.4999)' % a, 'facet')
    dom.create_region('C1', 'r.O1 *v vertices in (%s < %f)' % (a, 0.5 + case['gap'] + 1e-5), 'facet')
    dom.create_region('Contact', 'r.C0 +s r.C1', 'facet')
    f = Field.from_args('f', np.float64, dim, om, 1)
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    u.set_data(rs.uniform(-1, 1, f.n_nod * dim) * case['amp'])
    act = False
    try:
        eqs, ev = create_evaluable('dw_contact.i.Contact(m.e, v, u) + dw_zero.i.Omega(v, u)', {'f': f},
                                   Materials([Material('m', values={'.e': 1.0})]), Variables([u, v]),
                                   Integrals([Integral('i', order=case['order'])]), mode='weak', verbose=False)
        eqs.time_update_materials(None, verbose=False)
        out = eval_equations(eqs, ev, mode='weak', dw_mode='vector', verbose=False)
        act = bool(np.abs(out).max() > 0)
        eval_equations(eqs, ev, mode='weak', dw_mode='matrix', verbose=False)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        pass
    msg = summarize(reports(), any_=True)
    if msg is not None:
        raise Violation('dw_contact: ' + msg[0], key=msg[1])
    return {'nontrivial': act, 'classes': ['%dD' % dim]}


def strat_bodies(_):
    return st.fixed_dictionaries(dict(
        dim=st.integers(2, 3), n=st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list), order=st.integers(1, 3),
        gap=st.sampled_from([0.1, 0.0, -0.02, -0.1, -0.4, 3.0]), shift=st.sampled_from([0.0, 0.3, 1.0, 3.0]),
        size=st.sampled_from([1.0, 0.6, 1.5]), amp=st.sampled_from([0.0, 0.01, 0.2]),
        seed=st.integers(0, 10 ** 6)))


# Terms with the virtual and state variables in fields of different orders.

ORDERS = {
    'dw_laplace': 's', 'dw_laplace(m.one)': 's', 'dw_diffusion(m.k)': 's', 'dw_dot': 'sv', 'dw_dot(m.one)': 'sv',
    'dw_dot(m.k)': 'v', 'dw_lin_elastic(m.D)': 'v', 'dw_lin_elastic_iso(m.one, m.one)': 'v', 'dw_div_grad': 'v',
    'dw_div_grad(m.one)': 'v', 'dw_convect': 'v', 'dw_st_grad_div(m.one)': 'v', 'dw_nonsym_elastic(m.N)': 'v',
    'dw_s_dot_grad_i_s(m.i)': 's', 'dw_advect_div_free(m.c)': 's', 'dw_volume_nvf(m.fun)': 's',
    'dw_diffusion_r(m.k)': 's', 'dw_tl_he_neohook(m.one)': 'v', 'dw_tl_bulk_penalty(m.one)': 'v',
    'dw_lin_prestress(m.s)': 'v', 'dw_zero': 'sv', 'dw_bc_newton(m.one, m.one)': 's', 'dw_jump(m.one)': 's',
    'dw_v_dot_grad_s(m.one)': 'x', 'dw_biot(m.s)': 'x', 'dw_stokes(m.one)': 'x', 'dw_stokes': 'x',
    'dw_piezo_coupling(m.g)': 'x', 'dw_vm_dot_s(m.c)': 'x',
}

# Known findings, not generated.
UNSAFE = {
    'dw_convect', 'dw_diffusion(m.k)', 'dw_div_grad', 'dw_div_grad(m.one)', 'dw_laplace', 'dw_laplace(m.one)',
    'dw_lin_elastic(m.D)', 'dw_lin_elastic_iso(m.one, m.one)', 'dw_nonsym_elastic(m.N)', 'dw_st_grad_div(m.one)',
    'dw_tl_bulk_penalty(m.one)', 'dw_tl_he_neohook(m.one)',
}


def run_orders(case):
    reports()
    mesh, r = gen.mesh(case['mesh'])
    dim = r['coors'].shape[1]
    sym = dim * (dim + 1) // 2
    dom = FEDomain('d', mesh)
    om = dom.create_region('Omega', 'all')
    dom.create_region('Gamma', 'vertices of surface', 'facet')
    key = case['key']
    kind = ORDERS[key]
    kind = kind[case['k'] % len(kind)]
    nv, nu = {'s': (1, 1), 'v': (dim, dim), 'x': (dim, 1)}[kind]
    o1, o2 = case['orders']
    f = Field.from_args('f', np.float64, nv, om, o1)
    g = Field.from_args('g', np.float64, nu, om, o2)
    rs = np.random.RandomState(case['seed'])
    sp = lambda n: np.eye(n) + 0.1 * np.ones((n, n))  # noqa: E731
    m = Material('m', values=dict(k=sp(dim), D=sp(sym), N=sp(dim * dim), one=1.0, c=np.ones((dim, 1)),
                                  s=np.ones((sym, 1)), g=np.ones((dim, sym)), **{'.i': 0}))
    u = FieldVariable('u', 'unknown', g)
    w = FieldVariable('w', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='w')
    u.set_data(0.1 * rs.uniform(-1, 1, g.n_nod * nu))
    name, _, a = key.partition('(')
    reg = 'Gamma' if name == 'dw_bc_newton' else 'Omega'
    status = 'accepted'
    try:
        eqs, ev = create_evaluable('%s.i.%s(%sv, u) + dw_zero.i.Omega(v, w)'
                                   % (name, reg, a[:-1] + ', ' if a else ''), {'f': f, 'g': g}, Materials([m]),
                                   Variables([u, v, w]), Integrals([Integral('i', order=case['iorder'])]),
                                   mode='weak', verbose=False)
        eqs.time_update_materials(None, verbose=False)
        eval_equations(eqs, ev, mode='weak', dw_mode='vector', verbose=False)
        eval_equations(eqs, ev, mode='weak', dw_mode='matrix', verbose=False)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        status = 'rejected'
    msg = summarize(reports(), any_=True)
    if msg is not None:
        raise Violation(key + ': ' + msg[0], key='orders:' + key)
    return {'nontrivial': o1 != o2, 'classes': [status]}


def strat_orders(key):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['2_3', '2_4', '3_4', '3_8'], max_cells=6), seed=st.integers(0, 10 ** 6),
        key=st.just(key) if key else st.sampled_from(sorted(ORDERS)), k=st.integers(0, 1),
        orders=st.sampled_from([[1, 2], [2, 1], [1, 3], [3, 1], [2, 2]]), iorder=st.integers(1, 3)))


BAD = [False, False, False, True] if os.environ.get('VERIF_BAD', '1') == '1' else [False]
KINDS = ['1_2', '2_3', '2_4', '3_4', '3_8']
SUBS = [Sub('cmesh', strat_cmesh, run_cmesh, 60, 3000, items=KINDS),
        Sub('bodies', strat_bodies, run_bodies, 60, 3000),
        Sub('orders', strat_orders, run_orders, 8, 300, items=sorted(set(ORDERS) - UNSAFE))]
SOURCES = {}


def use(mod, sub, n):
    m = importlib.import_module(mod)
    for s in m.SUBS:
        if s.name == sub:
            SUBS.append(Sub('%s-%s' % (mod, sub), s.strategy, wrap(s.run), n,
                            max(n, s.thorough // 4), items=s.items, case_timeout=max(400, s.case_timeout)))
            return
    raise ValueError((mod, sub))


for args in [
    ('m01', 'topology', 40), ('m01', 'submesh', 20), ('m02', 'uniform', 6), ('m02', 'hanging', 20),
    ('m03', 'merge', 20), ('m03', 'simplices', 20), ('r01', 'expr', 60), ('r02', 'facets', 15),
    ('r02', 'mirror', 15), ('r02', 'dofs', 15), ('b01', 'basis', 6), ('f01', 'space', 4), ('f01', 'surface', 4),
    ('f01', 'proj', 3), ('f02', 'points', 10), ('f02', 'probe', 4), ('f02', 'transfer', 8), ('g01', 'cells', 30),
    ('g01', 'facets', 30), ('g01', 'moved', 20), ('g01', 'embedded', 20), ('t01', 'terms', 3), ('t01', 'nodal', 10),
    ('t02', 'terms', 2), ('t03', 'terms', 2), ('t03', 'values', 3), ('t03', 'mass', 15), ('h02', 'formulations', 15),
    ('k01', 'update', 15), ('e01', 'assembly', 8), ('i01', 'nurbs', 30), ('i01', 'domain', 15), ('i01', 'surf', 10),
    ('i01', 'box', 10), ('i01', 'region', 10), ('v01', 'state', 8), ('a01', 'shape', 1), ('a01', 'contact', 20),
    ('a01', 'membrane', 12), ('a01', 'shell', 16), ('l01', 'geometry', 20), ('p01', 'exact', 6),
]:
    use(*args)
