"""V01: variables keep their data, history and evaluations consistent."""
import numpy as np
import hypothesis.strategies as st

import gen
import pb
import tm
from fe import fun_region, facet_region, pick
from harness import Sub, check, close
from f01 import make_field
from g01 import own_boundary, facet_vertices

from sfepy.discrete import FieldVariable, Integral
from sfepy.solvers.ts import TimeStepper

PROP = 'V01'
RULE = ('Cases: random sequences of 6-22 operations (assign the current or a previous step from a '
        'vector, a part of a larger vector, a constant, a function, mesh vertex values; advance; '
        'change the time step; evaluate value, gradient, divergence, strain, time derivatives in cell, '
        'facet and boundary regions; read DOFs) on variables of 1-3 components, real or complex, '
        'history of 0-4 steps, and on full state vectors of several unknowns.  Oracle: a list '
        'of DOF vectors and own evaluation of the functions they give.  Non-trivial: at least two '
        'assignments and two evaluations.')
ASSUMPTIONS = ['the previous step of a variable that was not advanced yet is its current step',
               'arrays given to a variable are not modified by the caller']

E = np.einsum


def op_strategy():
    n = st.integers
    step = n(0, 2)
    reg = st.sampled_from(['Omega', 'sub', 'bnd', 'bnd', 'sub', 'Omega', 'x'])
    mode = st.sampled_from(['val', 'val', 'grad', 'grad', 'div', 'cauchy_strain'])
    return st.one_of(
        st.tuples(st.just('set'), step, n(0, 999)),
        st.tuples(st.just('set'), step, n(0, 999)),
        st.tuples(st.just('same'), step, step, n(0, 999)),
        st.tuples(st.just('part'), step, n(0, 7), n(0, 999)),
        st.tuples(st.just('const'), step, n(-3, 3)),
        st.tuples(st.just('fun'), step, n(0, 999)),
        st.tuples(st.just('vert'), n(0, 999)),
        st.tuples(st.just('qp'), step, n(0, 999)),
        st.tuples(st.just('advance')), st.tuples(st.just('advance')),
        st.tuples(st.just('dt'), n(1, 4)),
        st.tuples(st.just('eval'), mode, reg, step, n(0, 2), n(1, 2)),
        st.tuples(st.just('eval'), mode, reg, step, n(0, 2), n(1, 2)),
        st.tuples(st.just('eval'), mode, reg, step, n(0, 2), n(1, 2)),
        st.tuples(st.just('eval'), mode, reg, step, n(0, 2), n(1, 2)),
        st.tuples(st.just('eval'), mode, reg, step, n(0, 2), n(1, 2)),
        st.tuples(st.just('call'), step, n(0, 2)),
        st.tuples(st.just('region'), reg, step),
        st.tuples(st.just('clear'), n(0, 2)))


def single_strategy(item):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases([item], max_cells=2), nc=st.integers(0, 1), cplx=st.integers(0, 4),
        order=st.integers(1, 2), hist=st.sampled_from([None, 0, 1, 2, 3, 4]),
        kind=st.sampled_from(['parameter', 'unknown']), sub=st.integers(0, 2),
        seed=st.integers(0, 10 ** 6),
        ops=st.lists(op_strategy(), min_size=6, max_size=22)))


def expected(geo, field, fcells, d, nc, mode):
    if np.iscomplexobj(d):
        return (expected(geo, field, fcells, d.real, nc, mode)
                + 1j * expected(geo, field, fcells, d.imag, nc, mode))
    sl = tm.slot_state(geo, field, fcells, None, d, nc)
    if mode == 'val':
        return sl.val[:, :, 0, 0, :, None]
    if mode == 'grad':
        return sl.grad[:, :, 0, 0]
    if mode == 'div':
        return sl.div[:, :, 0, 0, None, None]
    return sl.strain[:, :, 0, 0, :, None]


class Ctx:
    def __init__(self, case):
        dom, r = gen.domain(case['mesh'])
        self.dom, self.g = dom, r['descs'][0]
        g = self.g
        self.dim = dim = int(g[0])
        n = len(r['conns'][0])
        self.coors = r['coors']
        self.conn = np.asarray(dom.cmesh.get_conn(dim, 0).indices).reshape(n, -1).astype(int)
        dom.create_region('Omega', 'all')
        rs = self.rs = np.random.RandomState(case['seed'])
        m = pick(case['seed'], n, 0.7) if case['sub'] == 0 else np.ones(n, bool)
        self.freg = fun_region(dom, 'F', m)
        self.fcells = np.where(m)[0]
        self.nc = self.dim if case['nc'] else 1
        self.dtype = np.complex128 if case['cplx'] == 0 else np.float64
        self.field = make_field('f', self.nc, self.freg, case['order'], 'lagrange', self.dtype)
        self.cells = {'F': self.fcells}
        m2 = np.zeros(n, bool)
        m2[self.fcells[pick(case['seed'] + 1, len(self.fcells), 0.5)]] = True
        self.regs = {'F': self.freg, 'sub': fun_region(dom, 'S', m2)}
        self.cells['sub'] = np.where(m2)[0]
        bnd = own_boundary(dom, g, self.conn, m)
        if dim > 1:
            k = dom.cmesh.get_conn(dim - 1, 0)
            off, ind = np.asarray(k.offsets), np.asarray(k.indices)
            keys = [frozenset(ind[off[i]:off[i + 1]].astype(int).tolist())
                    for i in range(len(off) - 1)]
        else:
            keys = [frozenset([i]) for i in range(len(self.coors))]
        on = [i for i, k in enumerate(keys) if k in bnd]
        pm = pick(case['seed'] + 3, len(on), 0.5)
        self.fverts = sorted(set().union(*[keys[on[i]] for i in np.where(pm)[0]]))
        self.regs['bnd'] = facet_region(dom, 'B', [on[i] for i in np.where(pm)[0]], parent='F')
        dom.create_surface_group(self.regs['bnd'])
        self.field.setup_surface_data(self.regs['bnd'])
        self.geos = {}

    def geo(self, reg, ii):
        key = reg, ii.order
        if key not in self.geos:
            if reg == 'bnd':
                out = tm.facet_geo(self.field, self.regs[reg], self.g, self.conn, self.coors, ii)
            else:
                out = tm.cell_geo(self.g, self.conn, self.coors, self.cells[reg], ii)
            self.geos[key] = out
        return self.geos[key]


class Model:
    def __init__(self, hist, dt):
        self.hist = hist
        self.data = [None] * ((hist or 0) + 1)
        self.step, self.dt = 0, dt

    def get(self, k):
        """Data of step -k, None if not available."""
        if self.step == 0 and k == 1:
            k = 0
        return self.data[k] if k < len(self.data) else None

    def value(self, k, der, dt):
        if not der:
            return self.get(k)
        a, b = self.get(k), self.get(k + 1)
        if self.hist is None or a is None or b is None:
            return None
        return (a - b) / dt

    def advance(self):
        if self.hist is None:
            return
        self.step += 1
        for i in range(1, len(self.data)):
            if self.data[i] is None:
                self.data[i] = self.data[i - 1]
        for i in range(len(self.data) - 1, 0, -1):
            self.data[i] = self.data[i - 1]


def raises(fun, *args, **kw):
    try:
        fun(*args, **kw)
    except (ValueError, IndexError):
        return True
    return False


def run_single(case):
    ctx = Ctx(case)
    f, nc, rs = ctx.field, ctx.nc, ctx.rs
    n = f.n_nod * nc
    u = FieldVariable('u', case['kind'], f, history=case['hist'],
                      primary_var_name='(set-to-None)' if case['kind'] == 'parameter' else None)
    u.init_history()
    m = Model(case['hist'], 1.0)
    ts = TimeStepper(0.0, 10.0, n_step=21)
    nset = nev = 0

    def vec(seed, size=n):
        r = np.random.RandomState(seed + 1)
        v = r.uniform(-1, 1, size)
        return v + 1j * r.uniform(-1, 1, size) if ctx.dtype == np.complex128 else v

    def same(a, b, msg, key):
        close(a, b, 1e-9, 1e-10, msg, key=key, scale=1 + np.abs(np.asarray(b)).max())

    m.step = u.step
    for op in [('set', 0, case['seed'] % 1000)] * (case['seed'] % 8 > 0) + list(case['ops']):
        what = op[0]
        k = op[1] if len(op) > 1 and isinstance(op[1], int) else 0
        if what in ('set', 'part', 'const', 'fun', 'qp') and k >= len(m.data):
            check(raises(u.set_data, vec(0), step=-k), 'assigning step %d accepted with history %s',
                  -k, case['hist'], key='set-range')
            continue
        if what == 'set':
            v = vec(op[2])
            u.set_data(v.copy(), step=-k)
            m.data[k] = v
        elif what == 'same':
            # One array for two steps.
            v = vec(op[3])
            w = v.copy()
            for kk in (k, op[2]):
                if kk < len(m.data):
                    u.set_data(w, step=-kk)
                    m.data[kk] = v
        elif what == 'part':
            big = vec(op[3], n + op[2] + 3)
            u.set_data(big.copy(), indx=slice(op[2], op[2] + n), step=-k)
            m.data[k] = big[op[2]:op[2] + n]
            check(raises(u.set_data, big.copy(), step=-k), 'vector of a wrong size accepted',
                  key='set-size')
        elif what == 'const':
            u.set_constant(float(op[2]), step=-k)
            m.data[k] = np.full(n, float(op[2]), dtype=ctx.dtype)
        elif what == 'fun':
            a = np.random.RandomState(op[2]).uniform(-1, 1, (ctx.dim + 1, nc))
            fun = lambda x: np.sin(x @ a[1:] + a[0])
            u.set_from_function(fun, step=-k)
            m.data[k] = fun(f.get_coor()).ravel().astype(ctx.dtype)
        elif what == 'vert':
            vv = vec(op[1], len(ctx.coors) * nc).reshape(-1, nc)
            k = 0
            used = np.unique(ctx.conn[ctx.fcells])
            u.set_from_mesh_vertices(vv[used])
            # The function: multilinear interpolation.
            d = u().copy()
            ii = Integral('i2', order=2)
            geo = ctx.geo('F', ii)
            bf = gen.ref_shape(ctx.g, geo.xi[0])[0]
            ref = E('qv,cvk->cqk', bf, vv[ctx.conn[ctx.fcells]])[..., None]
            same(expected(geo, f, ctx.fcells, d, nc, 'val'), ref,
                 'function set by mesh vertex values', 'vert')
            m.data[0] = d
        elif what == 'qp':
            # Averages over cells weighted by volumes, interpolated.
            ii = Integral('i2', order=2)
            geo = ctx.geo('F', ii)
            q = np.random.RandomState(op[2]).uniform(-1, 1, geo.w.shape + (nc, 1))
            u.set_from_qp(q.copy(), ii, step=-k)
            num, den = np.zeros((len(ctx.coors), nc)), np.zeros((len(ctx.coors), 1))
            fc = ctx.conn[ctx.fcells]
            num_e = E('cqk,cq->ck', q[..., 0], geo.w)
            for j in range(fc.shape[1]):
                np.add.at(num, fc[:, j], num_e)
                np.add.at(den, fc[:, j], geo.w.sum(1)[:, None])
            vv = num / np.where(den > 0, den, 1)
            d = u(step=-k).copy() if (k != 1 or m.step) else u.data[1].copy()
            bf = gen.ref_shape(ctx.g, geo.xi[0])[0]
            same(expected(geo, f, ctx.fcells, d, nc, 'val'), E('qv,cvk->cqk', bf, vv[fc])[..., None],
                 'function set by averaging quadrature point values', 'qp')
            m.data[k] = d
        elif what == 'advance':
            if m.data[0] is None or any(x is None for x in m.data[:-1]) and m.data[0] is None:
                continue
            u.advance(ts)
            ts.step += 1
            m.advance()
            if m.hist is not None:
                m.step = ts.step
        elif what == 'dt':
            ts.dt = op[1] * 0.25
            u.time_update(ts, None)
            m.dt = ts.dt
        elif what == 'call':
            der = op[2] == 2
            if m.value(k, der, m.dt) is None:
                k, der = 0, False
            v = m.value(k, der, m.dt)
            if v is None:
                continue
            same(u(step=-k, derivative='dt' if der else None), v, 'DOFs, step %d' % -k, 'call')
            check(u.is_finite(step=-k, derivative='dt' if der else None), 'is_finite() is False')
            nev += 1
        elif what == 'clear':
            if op[1]:
                u.invalidate_evaluate_cache(step=-op[1] + 1)
            else:
                u.clear_evaluate_cache()
        elif what == 'region':
            reg = op[1] if op[1] in ('sub', 'bnd') else 'F'
            k = op[2]
            v = m.get(k)
            if v is None:
                continue
            r = ctx.regs[reg]
            nods = np.asarray(f.get_dofs_in_region(r, merge=True))
            same(u.get_state_in_region(r, step=-k), v.reshape(-1, nc)[nods],
                 'DOFs in a region, step %d' % -k, 'region')
            same(u.get_state_in_region(r, reshape=False, step=-k), v.reshape(-1, nc)[nods].ravel(),
                 'DOFs in a region, not reshaped', 'region')
            nev += 1
        elif what == 'eval':
            _, mode, reg, k, der, io = op
            reg = reg if reg in ('sub', 'bnd') else 'F'
            if mode in ('div', 'cauchy_strain') and nc != ctx.dim:
                mode = 'grad'
            dt = m.dt if der < 2 else 0.3
            if m.value(k, der > 0, dt) is None:
                k, der = 0, 0
            v = m.value(k, der > 0, dt)
            if v is None:
                continue
            ii = Integral('i%d' % io, order=io)
            geo = ctx.geo(reg, ii)
            itg = None
            if reg == 'bnd' and mode != 'val':
                itg = 'facet_extra'
            got = u.evaluate(mode=mode, region=ctx.regs[reg], integral=ii, integration=itg,
                             step=-k, time_derivative='dt' if der else None,
                             dt=0.3 if der == 2 else None)
            ref = expected(geo, f, ctx.fcells, v, nc, mode)
            check(got.shape == ref.shape, 'shape of %s: %s, expected %s', mode, got.shape, ref.shape,
                  key='shape')
            same(got, ref, '%s in %s, step %d, derivative %d' % (mode, reg, -k, der),
                 'eval-%s' % ('der' if der else 'val'))
            nev += 1
        if what in ('set', 'same', 'part', 'const', 'fun', 'vert', 'qp'):
            nset += 1
        for k in range(len(m.data)):
            v = m.get(k)
            if v is not None:
                same(u(step=-k), v, 'DOFs of step %d after %s' % (-k, what), 'dofs')
    return {'nontrivial': nset >= 2 and nev >= 2,
            'classes': [ctx.g, 'hist-%s' % case['hist'], case['kind'],
                        'cplx%d' % (ctx.dtype == np.complex128), 'nc%d' % nc]
            + sorted({'op-' + o[0] for o in case['ops']})}


# ------------------------------------------------------------------ full state vectors

def state_ops():
    n = st.integers
    return st.one_of(
        st.tuples(st.just('init'), n(0, 1), n(0, 999)),
        st.tuples(st.just('set'), n(0, 1), n(0, 999)),
        st.tuples(st.just('fill'), n(-3, 3)),
        st.tuples(st.just('parts'), n(1, 7), n(0, 999)),
        st.tuples(st.just('vecpart'), n(0, 2), n(0, 1), n(0, 999)),
        st.tuples(st.just('reduced'), n(0, 1), n(0, 999)),
        st.tuples(st.just('ebc')), st.tuples(st.just('read')), st.tuples(st.just('locked')),
        st.tuples(st.just('advance')), st.tuples(st.just('advance')),
        st.tuples(st.just('eval'), n(0, 2), n(0, 1), n(0, 1), n(0, 1)),
        st.tuples(st.just('eval'), n(0, 2), n(0, 1), n(0, 1), n(0, 1)),
        st.tuples(st.just('eval'), n(0, 2), n(0, 1), n(0, 1), n(0, 1)),
        st.tuples(st.just('prev'), n(0, 2), n(0, 999)))


def state_strategy(item):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases([item], max_cells=2), nv=st.integers(1, 3),
        order=st.lists(st.integers(1, 2), min_size=3, max_size=3),
        nc=st.lists(st.integers(0, 1), min_size=3, max_size=3),
        hist=st.lists(st.sampled_from([None, 0, 1, 1, 2, 3]), min_size=3, max_size=3),
        cplx=st.integers(0, 4), perm=st.permutations([0, 1, 2]), explicit=st.integers(0, 1),
        seed=st.integers(0, 10 ** 6), ops=st.lists(state_ops(), min_size=5, max_size=20)))


def run_state(case):
    from sfepy.discrete.fem import Mesh
    mesh, r = gen.mesh(case['mesh'])
    g = r['descs'][0]
    dim = int(g[0])
    nv = case['nv']
    dtype = 'complex' if case['cplx'] == 0 else 'real'
    rs = np.random.RandomState(case['seed'])
    nce = len(r['conns'][0])
    cm = pick(case['seed'], nce, 0.6)
    names = ['u', 'p', 'a'][:nv]
    ncs = [dim if c else 1 for c in case['nc']]
    conf = {'regions': {'Omega': 'all', 'O2': 'cells by sel',
                        'G': ('vertices by selv', 'vertex')},
            'functions': {'sel': (lambda coors, domain=None: np.where(cm)[0],),
                          'selv': (lambda coors, domain=None: np.where(vm)[0],)},
            'fields': {}, 'variables': {}, 'materials': {}, 'integrals': {'i': 2}, 'equations': {},
            'ebcs': {}, 'solvers': {}}
    vm = pick(case['seed'] + 5, len(r['coors']), 0.3)
    regs = [('Omega', 'O2')[rs.randint(2)] for _ in names]
    # Explicit positions of unknowns in the state vector, or the order of definition.
    order = [i for i in case['perm'] if i < nv]
    val = rs.uniform(-1, 1, 3)
    for i, nm_ in enumerate(names):
        conf['fields']['f' + nm_] = (dtype, ncs[i], regs[i], case['order'][i])
        kind = ('unknown field', 'f' + nm_) + ((order[i],) if case['explicit'] else ())
        if case['hist'][i] is not None:
            if not case['explicit']:
                kind = kind + (None,)
            kind = kind + (case['hist'][i],)
        conf['variables'][nm_] = kind
        conf['variables']['v' + nm_] = ('test field', 'f' + nm_, nm_)
        conf['equations']['e' + nm_] = 'dw_zero.i.%s(v%s, %s) = 0' % (regs[i], nm_, nm_)
        conf['ebcs']['b' + nm_] = ('G', {nm_ + '.0': val[i]})
    # Boundary conditions only where the field is defined.
    prob = pb.problem(None, conf, mesh=mesh)
    prob.time_update()
    vs = prob.get_variables()
    ordered = list(np.array(names)[np.argsort(order)]) if case['explicit'] else sorted(names)
    conn = np.asarray(prob.domain.cmesh.get_conn(dim, 0).indices).reshape(nce, -1).astype(int)
    cells = {'Omega': np.arange(nce), 'O2': np.where(cm)[0]}
    ii = Integral('i2', order=2)
    fld = {n: prob.fields['f' + n] for n in names}
    size = {n: fld[n].n_nod * ncs[names.index(n)] for n in names}
    check(vs.di.n_dof_total == sum(size.values()), 'size of the state vector')
    if case['explicit']:
        check(list(vs.di.var_names) == ordered, 'order of variables %s, expected %s',
              list(vs.di.var_names), ordered, key='order')
    else:
        ordered = list(vs.di.var_names)
        check(sorted(ordered) == sorted(names), 'unknowns %s', ordered)
    sl, at = {}, 0
    for n in ordered:
        sl[n] = slice(at, at + size[n])
        at += size[n]
        ix = vs.get_indx(n)
        check((ix.start, ix.stop) == (sl[n].start, sl[n].stop), 'slice of %s is %s, expected %s', n, ix,
              sl[n], key='indx')
    ebc = np.zeros(at, bool)
    ev = np.zeros(at)
    for i, n in enumerate(names):
        nods = fld[n].get_dofs_in_region(prob.domain.regions['G'], merge=True)
        idx = sl[n].start + np.asarray(nods, dtype=int) * ncs[i]
        ebc[idx] = True
        ev[idx] = val[i]
    geos = {k: tm.cell_geo(g, conn, r['coors'], c, ii) for k, c in cells.items()}
    mod = {n: Model(case['hist'][i], 1.0) for i, n in enumerate(names)}
    cur = None
    ts = TimeStepper(0.0, 10.0, n_step=21)
    nset = nev = 0
    ctype = np.complex128 if dtype == 'complex' else np.float64

    def vec(seed, k=at):
        q = np.random.RandomState(seed + 1)
        v = q.uniform(-1, 1, k)
        return v + 1j * q.uniform(-1, 1, k) if ctype == np.complex128 else v

    def same(a, b, msg, key):
        close(a, b, 1e-9, 1e-10, msg, key=key, scale=1 + (np.abs(np.asarray(b)).max()
                                                          if np.size(b) else 0))

    def put(v):
        for n in names:
            mod[n].data[0] = v[sl[n]].copy()

    for op in case['ops']:
        what = op[0]
        if what != 'init' and cur is None:
            nset += 1
            vs.init_state()
            cur = np.zeros(at, ctype)
            put(cur)
        if what == 'init':
            if op[1]:
                cur = vec(op[2])
                vs.init_state(cur.copy())
            else:
                cur = np.zeros(at, ctype)
                vs.init_state()
            for i, n in enumerate(names):
                mod[n] = Model(case['hist'][i], mod[n].dt)
            for n in names:
                if mod[n].hist is None:
                    mod[n].step = vs[n].step
            put(cur)
            nset += 1
        elif what == 'set':
            cur = vec(op[2])
            arg = cur.copy()
            if op[1]:
                cur[ebc] = ev[ebc]
            vs.set_state(arg, apply_ebc=bool(op[1]))
            put(cur)
            nset += 1
        elif what == 'fill':
            cur = np.full(at, float(op[1]), ctype)
            vs.fill_state(float(op[1]))
            put(cur)
        elif what == 'parts':
            parts = {n: vec(op[2] + j, size[n]) for j, n in enumerate(names) if op[1] >> j & 1}
            for n, x in parts.items():
                cur = cur.copy()
                cur[sl[n]] = x
            vs.set_state_parts({n: x.copy() for n, x in parts.items()})
            put(cur)
            other = vec(op[2] + 7)
            ref = other.copy()
            for n, x in parts.items():
                ref[sl[n]] = x
            vs.set_state_parts(parts, vec=other)
            same(other, ref, 'parts set in a given vector', 'parts')
            got = vs.get_state_parts(other)
            check(sorted(got) == sorted(names), 'names of parts')
            for n in names:
                same(got[n], ref[sl[n]], 'part %s of a vector' % n, 'parts')
            nset += 1
        elif what == 'vecpart':
            n = names[op[1] % nv]
            red = bool(op[2])
            x = vec(op[3], vs.adi.n_dof_total if red else at)
            isl = sl[n]
            if red:
                a0 = 0
                for nn in ordered:
                    na = size[nn] - int(ebc[sl[nn]].sum())
                    if nn == n:
                        isl = slice(a0, a0 + na)
                    a0 += na
                check(a0 == vs.adi.n_dof_total, 'size of reduced vectors %d, expected %d',
                      vs.adi.n_dof_total, a0, key='reduced')
            same(vs.get_vec_part(x, n, reduced=red), x[isl], 'part of a vector', 'vecpart')
            y, ref = x.copy(), x.copy()
            new = vec(op[3] + 1, isl.stop - isl.start)
            ref[isl] = new
            vs.set_vec_part(y, n, new, reduced=red)
            same(y, ref, 'setting a part of a vector', 'vecpart')
            check(raises(vs.get_vec_part, np.r_[x, 0.0], n, reduced=red), 'wrong size accepted',
                  key='vecpart-size')
        elif what == 'reduced':
            full = vec(op[2])
            rv = vs.reduce_vec(full)
            same(rv, full[~ebc], 'reduced vector', 'reduced')
            ref = full.copy()
            ref[ebc] = ev[ebc]
            same(vs.make_full_vec(rv), ref, 'full vector of a reduced vector', 'reduced')
            if op[1]:
                vs.set_state(rv, reduced=True)
                cur = ref
                put(cur)
                same(vs.get_state(reduced=True), rv, 'reduced state', 'reduced')
                nset += 1
        elif what == 'ebc':
            cur = cur.copy()
            cur[ebc] = ev[ebc]
            vs.apply_ebc()
            put(cur)
            check(vs.has_ebc(), 'has_ebc() after apply_ebc()', key='has_ebc')
        elif what == 'locked':
            check(raises(vs[names[0]].set_data, np.zeros(size[names[0]])),
                  'data of a locked variable set', key='locked')
        elif what == 'advance':
            vs.advance(ts)
            ts.step += 1
            for n in names:
                mod[n].advance()
                if mod[n].hist is not None:
                    mod[n].step = ts.step
        elif what == 'prev':
            n = names[op[1] % nv]
            if mod[n].hist and vs[n].data[1] is not None:
                x = vec(op[2], size[n])
                vs[n].locked = False
                vs[n].set_data(x.copy(), step=-1)
                vs[n].locked = True
                mod[n].data[1] = x
        elif what == 'eval':
            n = names[op[1] % nv]
            i = names.index(n)
            k, der = op[2], op[3]
            if mod[n].value(k, der, mod[n].dt) is None:
                k, der = 0, 0
            v = mod[n].value(k, der, mod[n].dt)
            geo = geos[regs[i]]
            mode = 'grad' if op[4] else 'val'
            got = vs[n].evaluate(mode=mode, region=prob.domain.regions[regs[i]], integral=ii,
                                 step=-k, time_derivative='dt' if der else None)
            same(got, expected(geo, fld[n], cells[regs[i]], v, ncs[i], mode),
                 '%s of %s, step %d, derivative %d' % (mode, n, -k, der), 'state-eval')
            nev += 1
        same(vs(), cur, 'state after ' + what, 'state')
        same(vs.get_state(), cur, 'state after ' + what, 'state')
        for n in names:
            same(vs(n), cur[sl[n]], 'state of %s after %s' % (n, what), 'state')
            same(vs.get_state_parts()[n], cur[sl[n]], 'part %s after %s' % (n, what), 'state')
            for k in range(len(mod[n].data)):
                v = mod[n].get(k)
                if v is not None:
                    same(vs[n](step=-k), v, 'DOFs of %s, step %d after %s' % (n, -k, what), 'dofs')
        nev += what == 'read'
    return {'nontrivial': nset >= 2 and nev >= 1,
            'classes': [g, 'nv%d' % nv, 'explicit%d' % case['explicit'], dtype]
            + ['hist-%s' % h for h in case['hist'][:nv]] + sorted({'op-' + o[0] for o in case['ops']})}


KINDS = ['1_2', '2_3', '2_4', '3_4', '3_8']

SUBS = [
    Sub('single', single_strategy, run_single, n=130, items=KINDS),
    Sub('state', state_strategy, run_state, n=60, items=KINDS),
]
