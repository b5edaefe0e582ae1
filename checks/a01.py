"""A01: sensitivity terms and contact, membrane, shell and spring formulations."""
import numpy as np
from hypothesis import strategies as st

import sfepy.discrete  # noqa: F401 (import order)
from sfepy.discrete import FieldVariable, Function, Integral, Integrals, Material, Materials, Variables
from sfepy.discrete.evaluate import create_evaluable, eval_equations
from sfepy.discrete.fem import FEDomain, Field, Mesh

import gen
import tm
from harness import Sub, check, close, Violation, Skip

from t01 import facet_region, own_boundary, fun_region, pick, Ctx

PROP = 'A01'
RULE = ('Cases: sensitivity term and signature x random mesh, subregion, field orders, bases, DOFs, coefficients, '
        'random piecewise (multi)linear design velocity (the derivative is not zero); spring and truss networks '
        '(more than one element); contact with a plane or sphere (some points in contact, some not); membranes on '
        'mesh facets (non-zero residual); shells (more than one element).')
ASSUMPTIONS = ['coefficients constant in space (not moved)', 'the design velocity in the order 1 Lagrange field',
               'Lagrange bases', 'ev_sd_* terms: term_mode 1']

# Shapes: D = vector, 1 = scalar.  sd: expression of the sensitivity term, base: expression of the
# differentiated term; v is the test function or its values.
# name: (arguments {letter: shape}, materials {name: shape}, sd, base, modes, kind)
TERMS = {}


def T(key, args, mats, sd, base, modes=('eval',), kind='c', mats_opt=False):
    TERMS[key] = dict(args=args, mats=mats, sd=sd, base=base, modes=modes, kind=kind)


VV = {'v': 'D', 'u': 'D'}
SS = {'v': 1, 'u': 1}
VS = {'v': 'D', 'u': 1}
SV = {'v': 1, 'u': 'D'}
ALL = ('weak', 'eval')
T('ev_sd_lin_elastic', VV, {'m': 'S, S, sym'}, 'ev_sd_lin_elastic(c.m, v, u, mv)', 'dw_lin_elastic(c.m, v, u)')
T('de_sd_lin_elastic', VV, {'m': 'S, S, sym'}, 'de_sd_lin_elastic(c.m, v, u, mv)', 'dw_lin_elastic(c.m, v, u)', ALL)
T('de_sd_lin_elastic-ns', VV, {'m': 'D2, D2, sym'}, 'de_sd_lin_elastic(c.m, v, u, mv)',
  'dw_nonsym_elastic(c.m, v, u)', ALL)
T('ev_sd_diffusion', SS, {'m': 'D, D, sym'}, 'ev_sd_diffusion(c.m, v, u, mv)', 'dw_diffusion(c.m, v, u)')
T('de_sd_diffusion', SS, {'m': 'D, D, sym'}, 'de_sd_diffusion(c.m, v, u, mv)', 'dw_diffusion(c.m, v, u)', ALL)
T('ev_sd_piezo_coupling', VS, {'m': 'D, S'}, 'ev_sd_piezo_coupling(c.m, v, u, mv)',
  'dw_piezo_coupling(c.m, v, u)')
T('de_sd_piezo_coupling', VS, {'m': 'D, S'}, 'de_sd_piezo_coupling(c.m, v, u, mv)',
  'dw_piezo_coupling(c.m, v, u)', ALL)
T('de_sd_piezo_coupling-div', SV, {'m': 'D, S'}, 'de_sd_piezo_coupling(c.m, u, v, mv)',
  'dw_piezo_coupling(c.m, u, v)', ('weak',))
for opt in ('', '-c'):
    m = {'m': '1, 1'} if opt else {}
    c = 'c.m, ' if opt else ''
    T('de_sd_stokes' + opt, VS, m, 'de_sd_stokes(%sv, u, mv)' % c, 'dw_stokes(%sv, u)' % c, ALL)
    T('de_sd_stokes-div' + opt, SV, m, 'de_sd_stokes(%su, v, mv)' % c, 'dw_stokes(%su, v)' % c, ('weak',))
    T('de_sd_v_dot_grad_s' + opt, VS, m, 'de_sd_v_dot_grad_s(%sv, u, mv)' % c,
      'dw_v_dot_grad_s(%sv, u)' % c, ALL)
    T('de_sd_v_dot_grad_s-div' + opt, SV, m, 'de_sd_v_dot_grad_s(%su, v, mv)' % c,
      'dw_v_dot_grad_s(%su, v)' % c, ('weak',))
    T('de_sd_div_grad' + opt, VV, m, 'de_sd_div_grad(%sv, u, mv)' % c, 'dw_div_grad(%sv, u)' % c, ALL)
    T('ev_sd_div_grad' + opt, VV, m, 'ev_sd_div_grad(%sv, u, mv)' % c, 'dw_div_grad(%sv, u)' % c)
    T('de_sd_dot-s' + opt, SS, m, 'de_sd_dot(%sv, u, mv)' % c, 'dw_dot(%sv, u)' % c, ALL)
    T('de_sd_dot-v' + opt, VV, m, 'de_sd_dot(%sv, u, mv)' % c, 'dw_dot(%sv, u)' % c, ALL)
T('de_sd_dot-M', VV, {'m': 'D, D'}, 'de_sd_dot(c.m, v, u, mv)', 'dw_dot(c.m, v, u)', ALL)
T('ev_sd_dot-s', SS, {}, 'ev_sd_dot(v, u, mv)', 'dw_dot(v, u)')
T('ev_sd_dot-v', VV, {}, 'ev_sd_dot(v, u, mv)', 'dw_dot(v, u)')
T('ev_sd_div', VS, {}, 'ev_sd_div(v, u, mv)', 'dw_stokes(v, u)')
T('ev_sd_convect', VV, {}, 'ev_sd_convect(u, v, mv)', 'dw_convect(v, u)')
T('ev_sd_st_grad_div', VV, {'m': '1, 1'}, 'ev_sd_st_grad_div(c.m, u, v, mv)', 'dw_st_grad_div(c.m, v, u)')
T('ev_sd_st_supg_c', dict(VV, b='D'), {'m': '1, 1'}, 'ev_sd_st_supg_c(c.m, b, u, v, mv)',
  'dw_st_supg_c(c.m, v, b, u)')
T('ev_sd_st_pspg_c', dict(SV, b='D'), {'m': '1, 1'}, 'ev_sd_st_pspg_c(c.m, b, u, v, mv)',
  'dw_st_pspg_c(c.m, v, b, u)')
T('ev_sd_st_pspg_p', SS, {'m': '1, 1'}, 'ev_sd_st_pspg_p(c.m, v, u, mv)', 'dw_st_pspg_p(c.m, v, u)')
for sh in ('S, 1', '1, 1', 'D, D, sym', ''):
    c = 'c.m, ' if sh else ''
    m = {'m': sh} if sh else {}
    T('ev_sd_surface_ltr-' + (sh or 'none'), {'v': 'D'}, m, 'ev_sd_surface_ltr(%sv, mv)' % c,
      'dw_surface_ltr(%sv)' % c, kind='f')
    T('de_sd_surface_ltr-' + (sh or 'none'), {'v': 'D'}, m, 'de_sd_surface_ltr(%sv, mv)' % c,
      'dw_surface_ltr(%sv)' % c, ALL, kind='f')


def size(sh, dim):
    return {'1': 1, 'D': dim, 'S': dim * (dim + 1) // 2, 'D2': dim ** 2}[sh]


class Setup:
    """The mesh of a case with moved vertices."""

    def __init__(self, case, eps=0.0):
        rs = np.random.RandomState(case['seed'])
        spec = self.spec = TERMS[case['key']]
        mesh, r = gen.mesh(case['mesh'])
        self.g, coors = r['descs'][0], r['coors']
        self.dim = dim = coors.shape[1]
        self.vel = rs.uniform(-1, 1, coors.shape)
        if eps:
            mesh = Mesh.from_data('moved', coors + eps * self.vel, None, [c.copy() for c in r['conns']],
                                  [np.zeros(len(c), dtype=np.int32) for c in r['conns']], r['descs'])
        self.dom = FEDomain('d', mesh)
        n = len(r['conns'][0])
        self.omega = self.dom.create_region('Omega', 'all')
        m = pick(case['seed'], n, 0.7) if case['sub'] else np.ones(n, bool)
        self.sub = fun_region(self.dom, 'Sub', m)
        if spec['kind'] == 'f':
            conn = np.asarray(self.dom.cmesh.get_conn(dim, 0).indices).reshape(n, -1).astype(int)
            bnd = own_boundary(self.dom, self.g, conn, m)
            k = self.dom.cmesh.get_conn(dim - 1, 0)
            off, ind = np.asarray(k.offsets), np.asarray(k.indices)
            keys = [frozenset(ind[off[i]:off[i + 1]].astype(int).tolist()) for i in range(len(off) - 1)]
            on = [i for i, k in enumerate(keys) if k in bnd]
            pm = pick(case['seed'] + 3, len(on), 0.5)
            self.region = facet_region(self.dom, 'Gamma', [on[i] for i in np.where(pm)[0]], parent='Sub')
        else:
            self.region = self.sub
        self.integral = Integral('i', order=case['iorder'])
        self.rs = rs
        self.fields = {}
        self.values = {}
        for name in sorted(spec['args']):
            sh = spec['args'][name]
            order = 1 + int(rs.randint(case['order']))
            if name == 'u' and spec['args']['u'] == spec['args']['v']:
                self.fields['u'] = self.fields['fv'] if 'fv' in self.fields else None
            f = Field.from_args('f' + name, np.float64, dim if sh == 'D' else 1, self.omega, order,
                                poly_space_basis='lagrange')
            self.fields['f' + name] = f
        if 'u' in spec['args'] and spec['args']['u'] == spec['args']['v']:
            # Same fields.
            self.fields['fu'] = self.fields['fv']
        self.fields.pop('u', None)
        for name in sorted(spec['args']):
            self.values[name] = rs.uniform(-1, 1, self.fields['f' + name].n_nod
                                           * (dim if spec['args'][name] == 'D' else 1))
        self.fmv = Field.from_args('fmv', np.float64, dim, self.omega, 1)
        self.mats = []
        for name, sh in spec['mats'].items():
            p = [x.strip() for x in sh.split(',')]
            v = rs.uniform(-1, 1, (size(p[0], dim), size(p[1], dim)))
            if len(p) == 3:
                v = v + v.T
            self.mats = [Material('c', values={name: v})]

    def variables(self, mode):
        out = []
        for name in sorted(self.spec['args']):
            f = self.fields['f' + name]
            if mode == 'eval':
                x = FieldVariable(name, 'parameter', f, primary_var_name='(set-to-None)')
                x.set_data(self.values[name])
            elif name == 'v':
                prim = 'u' if self.fields.get('fu') is f else 'v0'
                x = FieldVariable('v', 'test', f, primary_var_name=prim)
                if prim == 'v0':
                    out.append(FieldVariable('v0', 'unknown', f))
                    out[-1].set_data(np.zeros_like(self.values['v']))
            elif name == 'u':
                x = FieldVariable('u', 'unknown', f)
                x.set_data(self.values['u'])
                if self.fields['fv'] is not f:
                    out.append(FieldVariable('w', 'test', f, primary_var_name='u'))
            else:
                x = FieldVariable(name, 'parameter', f, primary_var_name='(set-to-None)')
                x.set_data(self.values[name])
            out.append(x)
        x = FieldVariable('mv', 'parameter', self.fmv, primary_var_name='(set-to-None)')
        check(np.abs(self.fmv.get_coor() - self.dom.mesh.coors).max() == 0, 'nodes of the order 1 field')
        x.set_data(self.vel.ravel())
        return out + [x]

    def evaluate(self, expr, mode):
        vs = self.variables(mode)
        names = [v.name for v in vs]
        if 'mv)' not in expr:
            vs.pop(names.index('mv'))
        full = expr.replace('(', '.i.%s(' % self.region.name, 1)
        if mode == 'weak':
            full += ' + dw_zero.i.%s(v, %s)' % (self.sub.name, 'v0' if 'v0' in names else 'u')
            if 'w' in names:
                full += ' + dw_zero.i.%s(w, u)' % self.sub.name
        if mode == 'weak' and 'u' not in self.spec['args'] or 'w' in names or 'v0' in names:
            pass
        fields = {f.name: f for f in list(self.fields.values()) + [self.fmv]}
        eqs, evars = create_evaluable(full, fields, Materials(self.mats), Variables(vs),
                                      Integrals([self.integral]), mode=mode, verbose=False)
        eqs.time_update_materials(None, verbose=False)
        if mode == 'eval':
            kw = {'term_mode': 1} if 'sd_' in expr and expr.startswith('ev_') else {}
            return float(np.asarray(eval_equations(eqs, evars, mode='eval', verbose=False, **kw)).ravel()[0])
        vec = eval_equations(eqs, evars, mode='weak', dw_mode='vector', verbose=False)
        prim = 'v0' if 'v0' in names else ('u' if self.fields.get('fu') is self.fields['fv'] else 'v0')
        return vec[evars.di.indx[prim]].copy()

    def matrix(self, expr):
        pass


def base_vector(s):
    return s.evaluate(s.spec['base'], 'weak')


def run_shape(case):
    s = Setup(case)
    spec = s.spec
    hs = []
    scale = np.ptp(s.dom.mesh.coors, axis=0).max()
    h = 2e-3 * case['step'] * scale
    for k in (1, 2):
        for sg in (1, -1):
            t = Setup(case, eps=sg * h * k)
            check(t.region.cells.tolist() == s.region.cells.tolist() if spec['kind'] == 'c' else
                  t.region.facets.tolist() == s.region.facets.tolist(), 'regions of moved meshes')
            hs.append(base_vector(t))
    d1 = (hs[0] - hs[1]) / (2 * h)
    d2 = (hs[2] - hs[3]) / (4 * h)
    ref = (4 * d1 - d2) / 3
    err = np.abs(d1 - d2).max() / (np.abs(hs[0]).max() / scale + np.abs(ref).max() + 1e-12)
    if err > 1e-3:
        raise Skip('finite differences are not accurate')
    tol = max(1e-8, 5 * err ** 1.5)
    mag = np.abs(hs[0]).max() / scale + np.abs(ref).max()
    if 'weak' in spec['modes']:
        got = s.evaluate(spec['sd'], 'weak')
        close(got, ref, tol, tol * mag, 'residual of ' + spec['sd'], key=case['key'])
    if 'eval' in spec['modes']:
        v = s.values['v']
        got = s.evaluate(spec['sd'], 'eval')
        close(np.array(got), np.array(ref @ v), tol, tol * mag * np.sqrt(len(v)) * 3, 'value of ' + spec['sd'],
              key=case['key'])
    return {'nontrivial': bool(np.abs(ref).max() > 1e-6), 'classes': [case['key'], s.g]}


def strat_shape(key):
    return st.fixed_dictionaries(dict(
        key=st.just(key) if key else st.sampled_from(sorted(TERMS)),
        mesh=gen.cases(['2_3', '2_4', '3_4', '3_8'], max_cells=8), seed=st.integers(0, 10 ** 6),
        sub=st.booleans(), order=st.integers(1, 2), iorder=st.integers(1, 3),
        step=st.sampled_from([0.3, 1.0])))


# Springs, trusses.

def run_struct(case):
    rs = np.random.RandomState(case['seed'])
    dim, kind = case['dim'], case['kind']
    nv, ne = 2 + case['nv'], 1 + case['ne']
    coors = rs.uniform(-1, 1, (nv, dim))
    conn, k = [], 0
    while len(conn) < ne:
        a, b = rs.choice(nv, 2, replace=False)
        conn.append([a, b])
    conn = np.array(conn + [[i, (i + 1) % nv] for i in range(nv) if i not in {x for c in conn for x in c}],
                    dtype=np.int32)
    ne = len(conn)
    dvec = None
    if kind in ('dspring', 'rot') and case['dvec']:
        dvec = rs.uniform(-1, 1, dim) + 0.1
        if case['coincident']:
            coors[conn[0, 1]] = coors[conn[0, 0]]
    d = coors[conn[:, 1]] - coors[conn[:, 0]] if dvec is None else np.tile(dvec, (ne, 1))
    if np.linalg.norm(d, axis=1).min() < 0.05:
        raise Skip('short element')
    ln = np.linalg.norm(d, axis=1)
    t = d / ln[:, None]
    mesh = Mesh.from_data('m', coors, None, [conn], [np.zeros(ne, dtype=np.int32)],
                          ['1_2' if dim == 1 else '%d_1_2' % dim if False else '1_2'])
    dom = FEDomain('d', mesh)
    om = dom.create_region('Omega', 'all')
    own = np.asarray(dom.cmesh.get_conn(1, 0).indices).reshape(-1, 2)
    sym = dim * (dim + 1) // 2
    nc = sym if kind == 'rot' else dim
    f = Field.from_args('f', np.float64, nc, om, 1)
    econn = f.get_econn('cell', om)
    check(np.array_equal(own[:, [0, 1]], econn), 'nodes of line elements')
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    val = rs.uniform(-1, 1, f.n_nod * nc)
    u.set_data(val)
    # 1D cells may be reversed.
    order = []
    left = list(range(ne))
    for e in own:
        j = next(x for x in left if (np.sort(conn[x]) == np.sort(e)).all())
        left.remove(j)
        order.append(j)
        if (conn[j] != e).any() and dvec is None:
            d[j] *= -1
    t = d / ln[:, None]
    # The transformation to the global system.
    mats, K = [], np.zeros((ne, nc, nc))
    cv = {}
    if kind in ('spring', 'truss', 'force'):
        k = rs.uniform(0.5, 2, ne if case['vmat'] else 1)
        kk = np.broadcast_to(k, ne)
        cv['k'] = kk.reshape(-1, 1, 1)
        if kind == 'spring':
            K = -kk[:, None, None] * np.eye(dim)
        else:
            K = (kk / ln)[:, None, None] * t[:, :, None] * t[:, None, :]
        name = {'spring': 'dw_lin_spring', 'truss': 'dw_lin_truss', 'force': 'ev_lin_truss_force'}[kind]
        args = 'c.k'
    else:
        # Transversely isotropic in 3D.
        a, b = rs.uniform(0.5, 2, 2)
        loc = np.diag([a] + [b] * (dim - 1))
        full = np.zeros((nc, nc))
        full[:dim, :dim] = loc
        if kind == 'rot' and dim == 2:
            full[2, 2] = rs.uniform(0.5, 2)
        elif kind == 'rot' and dim == 3:
            a, b = rs.uniform(0.5, 2, 2)
            full[3:, 3:] = np.diag([a, b, b])
        if case['full'] or dvec is None:
            if dim == 2 and not case['sym']:
                full[:] = rs.uniform(-1, 1, full.shape)
                full = full + full.T
            elif kind == 'rot' and dim == 3:
                a, b = rs.uniform(-0.5, 0.5, 2)
                full[:3, 3:] = full[3:, :3] = np.diag([a, b, b])
            cv['k'] = np.tile(full, (ne, 1, 1))
        else:
            cv['k'] = np.tile(np.diag(full)[:, None], (ne, 1, 1))
        for ie in range(ne):
            if dim == 1:
                q = t[ie][:, None]
            elif dim == 2:
                q = np.array([t[ie], [-t[ie][1], t[ie][0]]]).T
            else:
                x = np.linalg.svd(t[ie][None])[2]
                q = np.array([t[ie], x[1], x[2]]).T
            tr = np.zeros((nc, nc))
            tr[:dim, :dim] = q
            if kind == 'rot':
                tr[dim:, dim:] = q if dim == 3 else np.eye(nc - dim)
            K[ie] = tr @ full @ tr.T
        name = 'dw_lin_dspring' if kind == 'dspring' else 'dw_lin_dspring_rot'
        args = 'c.k'
        if dvec is not None:
            args = 'c.d, c.k'
            cv['d'] = np.tile(dvec[:, None], (ne, 1, 1))
    def fun(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            check(len(coors) % ne == 0, 'points')
            return {n: np.repeat(x[order], len(coors) // ne, axis=0) for n, x in cv.items()}
    mats = [Material('c', function=Function('fun', fun))]
    du = val.reshape(-1, nc)[econn]
    r = np.zeros((f.n_nod, nc))
    M = np.zeros((f.n_nod * nc,) * 2)
    for ie, (a, b) in enumerate(econn):
        q = K[order[ie]]
        g = q @ (du[ie, 0] - du[ie, 1])
        r[a] += g
        r[b] -= g
        ia, ib = a * nc + np.arange(nc), b * nc + np.arange(nc)
        for x, y, sg in ((ia, ia, 1), (ib, ib, 1), (ia, ib, -1), (ib, ia, -1)):
            M[np.ix_(x, y)] += sg * q
    if kind == 'force':
        w = FieldVariable('w', 'parameter', f, primary_var_name='(set-to-None)')
        w.set_data(val)
        eqs, evars = create_evaluable('%s.0.Omega(%s, w)' % (name, args), {'f': f}, Materials(mats),
                                      Variables([w]), Integrals([]), mode='el_avg', verbose=False)
        eqs.time_update_materials(None, verbose=False)
        ref = np.array([K[order[ie]] @ (du[ie, 1] - du[ie, 0]) @ t[order[ie]] for ie in range(ne)])
        for mode in ('el_avg', 'qp'):
            got = eval_equations(eqs, evars, mode=mode, verbose=False)
            close(got, ref[:, None, None, None], 1e-10, 1e-12, 'truss forces ' + mode, key='force')
    else:
        eqs, evars = create_evaluable('%s.0.Omega(%s, v, u)' % (name, args), {'f': f}, Materials(mats),
                                      Variables([u, v]), Integrals([]), mode='weak', verbose=False)
        eqs.time_update_materials(None, verbose=False)
        got = eval_equations(eqs, evars, mode='weak', dw_mode='vector', verbose=False)
        close(got, r.ravel(), 1e-10, 1e-11, 'residual of ' + name, key=name + '-residual')
        got = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', verbose=False)
        close(got.toarray(), M, 1e-10, 1e-11, 'matrix of ' + name, key=name + '-matrix')
    return {'nontrivial': ne > 1, 'classes': [kind + '-%d' % dim, 'dvec' if dvec is not None else 'nodvec']}


def strat_struct(kind):
    return st.fixed_dictionaries(dict(
        kind=st.just(kind) if kind else st.sampled_from(STRUCT), dim=st.integers(2 if kind == 'rot' else 1, 3),
        nv=st.integers(0, 5), ne=st.integers(0, 8), seed=st.integers(0, 10 ** 6), dvec=st.booleans(),
        coincident=st.booleans(), full=st.booleans(), sym=st.booleans(), vmat=st.booleans()))


STRUCT = ['spring', 'truss', 'force', 'dspring', 'rot']


# Contact with a rigid plane or sphere.

def force(d, k, f0, diff=False):
    """The documented contact force."""
    if f0 == 0:
        return np.where(d > 0, k if diff else k * d, 0.0)
    mid = (d > -2 * f0 / k) & (d <= 0)
    if diff:
        return np.where(d > 0, k, np.where(mid, k ** 2 / (2 * f0) * d + k, 0.0))
    return np.where(d > 0, k * d + f0, np.where(mid, k ** 2 / (4 * f0) * d ** 2 + k * d + f0, 0.0))


def run_contact(case):
    ctx = Ctx(case, 'f')
    rs = ctx.rs
    f = Field.from_args('f', np.float64, 3, ctx.omega, case['order'])
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    size_ = np.ptp(ctx.coors, axis=0)
    mid = ctx.coors.mean(0)
    val = rs.uniform(-0.2, 0.2, f.n_nod * 3) * size_.min()
    u.set_data(val)
    k = float(rs.uniform(0.5, 3))
    f0 = [0.0, 0.1, 0.5, 2.0][case['f0']] * k * size_.max() * 0.2
    cells = np.arange(len(ctx.conn))
    geo = tm.facet_geo(f, ctx.region, ctx.g, ctx.conn, ctx.coors, ctx.integral)
    uq = tm.slot_state(geo, f, cells, ctx.omega, val, 3).val[:, :, 0, 0]
    x = geo.x + uq
    if case['kind'] == 'plane':
        n = rs.normal(size=3)
        if case['axis'] < 3:
            n = np.eye(3)[case['axis']] * [1, -1][rs.randint(2)]
        nn = n / np.linalg.norm(n)
        a = mid + rs.uniform(-0.5, 0.5, 3) * size_
        q = np.linalg.svd(nn[None])[2][1:]
        m = rs.randint(3, 7)
        ang = np.sort((np.arange(m) + rs.uniform(0.1, 0.9, m)) / m) * 2 * np.pi
        poly = np.array([np.cos(ang), np.sin(ang)]).T * size_.max() * rs.uniform(0.3, 1.5)
        if rs.randint(2):
            poly = poly[::-1]
        b = mid + poly @ q + rs.uniform(-1, 1, (m, 1)) * nn
        mat = Material('c', values={'f': [k, f0], '.n': n, '.a': a, '.b': b})
        expr = 'dw_contact_plane.i.%s(c.f, c.n, c.a, c.b, v, u)' % ctx.region.name
        p2 = (geo.x - mid) @ q.T
        e = np.roll(poly, -1, axis=0) - poly
        cr = (e[:, 0] * (p2[..., None, 1] - poly[:, 1]) - e[:, 1] * (p2[..., None, 0] - poly[:, 0])) \
            / np.linalg.norm(e, axis=1)
        inside = (cr > 0).all(-1) | (cr < 0).all(-1)
        if np.abs(cr).min() < 1e-6 * size_.max():
            raise Skip('a point at a boundary of the polygon')
        d = (x - a) @ nn
        nrm = np.broadcast_to(nn, x.shape)
        r = None
    else:
        c = mid + rs.uniform(-0.6, 0.6, 3) * size_
        R = float(rs.uniform(0.2, 1.0) * size_.max())
        mat = Material('c', values={'f': [k, f0], '.c': c, '.r': R})
        expr = 'dw_contact_sphere.i.%s(c.f, c.c, c.r, v, u)' % ctx.region.name
        r = np.linalg.norm(c - x, axis=-1)
        if r.min() < 1e-3 * R:
            raise Skip('a point in the centre')
        d = R - r
        nrm = (c - x) / r[..., None]
        inside = np.ones(d.shape, bool)
    if min(np.abs(d).min(), np.abs(d + 2 * f0 / k).min()) < 1e-9:
        raise Skip('a point at an interface of the force law')
    F = np.where(inside, force(d, k, f0), 0)
    dF = np.where(inside, force(d, k, f0, True), 0)
    vb, idx = tm.slot_basis(geo, f, cells, 3, True)
    bv = vb.val[:, :, :, 0]
    ref = np.zeros(len(val))
    np.add.at(ref, idx, np.einsum('cq,cq,cqni,cqi->cn', geo.w, F, bv, nrm))
    H = dF[..., None, None] * nrm[..., :, None] * nrm[..., None, :]
    if r is not None:
        H = H - (F / r)[..., None, None] * (np.eye(3) - nrm[..., :, None] * nrm[..., None, :])
    mref = np.zeros((len(val),) * 2)
    np.add.at(mref, (idx[:, :, None], idx[:, None, :]), np.einsum('cq,cqni,cqij,cqmj->cnm', geo.w, bv, H, bv))
    eqs, evars = create_evaluable(expr + ' + dw_zero.i.Omega(v, u)', {'f': f}, Materials([mat]),
                                  Variables([u, v]), Integrals([ctx.integral]), mode='weak', verbose=False)
    eqs.time_update_materials(None, verbose=False)
    got = eval_equations(eqs, evars, mode='weak', dw_mode='vector', verbose=False)
    close(got, ref, 1e-8, 1e-9 * max(1, np.abs(ref).max()), 'residual of ' + expr, key=case['kind'])
    got = eval_equations(eqs, evars, mode='weak', dw_mode='matrix', verbose=False)
    close(got.toarray(), mref, 1e-8, 1e-9 * max(1, np.abs(mref).max()), 'matrix of ' + expr, key=case['kind'])
    act = int((F > 0).sum())
    return {'nontrivial': 0 < act < F.size, 'classes': [case['kind'], ctx.g, 'f0-%d' % (f0 > 0),
                                                       'smooth' if ((d < 0) & (F > 0)).any() else 'plain']}


def strat_contact(_):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['3_4', '3_8'], max_cells=8), seed=st.integers(0, 10 ** 6), sub=st.booleans(),
        kind=st.sampled_from(['plane', 'sphere']), part=st.booleans(), order=st.integers(1, 2),
        iorder=st.integers(1, 3), f0=st.integers(0, 3), axis=st.integers(0, 4)))


# Mooney-Rivlin membranes: derivatives of the energy.

def run_membrane(case):
    ctx = Ctx(case, 'f')
    rs = ctx.rs
    f = Field.from_args('f', np.float64, 3, ctx.omega, case['order'])
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    cells = np.arange(len(ctx.conn))
    geo = tm.facet_geo(f, ctx.region, ctx.g, ctx.conn, ctx.coors, ctx.integral)
    n = geo.n
    if np.abs(n - n[:, :1]).max() > 1e-9:
        raise Skip('warped facets')
    tt = np.array([np.linalg.svd(x[:1])[2][1:] for x in n])
    val = rs.uniform(-1, 1, f.n_nod * 3) * case['amp'] * np.ptp(ctx.coors, axis=0).min() / (2 * case['order'])
    vals = {k: rs.uniform(0.5, 2, geo.w.shape if case['vmat'] else 1) for k in ('a', 'b', 'h')}
    full = {k: np.broadcast_to(x, geo.w.shape) for k, x in vals.items()}

    def invariants(dofs):
        gr = tm.slot_state(geo, f, cells, ctx.omega, dofs, 3).grad
        gr = gr.reshape(gr.shape[0], gr.shape[1], 3, 3)
        x = tt[:, None] + np.einsum('cid,cqdk->cqik', tt, gr)
        c = np.einsum('cqik,cqjk->cqij', x, x)
        det = c[..., 0, 0] * c[..., 1, 1] - c[..., 0, 1] * c[..., 1, 0]
        tr = c[..., 0, 0] + c[..., 1, 1]
        return tr + 1 / det, det + tr / det, det

    def energy(dofs):
        i1, i2, _ = invariants(dofs)
        return (geo.w * full['h'] * (full['a'] * (i1 - 3) + full['b'] * (i2 - 3))).sum()
    if invariants(val)[2].min() < 0.05:
        raise Skip('nearly degenerate deformation')
    nd = len(val)
    _, idx = tm.slot_basis(geo, f, cells, 3, True)
    used = np.unique(idx)
    ref = np.zeros(nd)
    for k in used:
        x = val.astype(complex)
        x[k] += 1e-30j
        ref[k] = energy(x).imag / 1e-30

    def fun(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            check(len(coors) == geo.w.size, 'points')
            return {k: x.reshape(-1, 1, 1).copy() for k, x in full.items()}
    mat = Material('c', function=Function('fun', fun))

    def evaluate(dofs, dw_mode):
        u.set_data(dofs)
        eqs, evars = create_evaluable(
            'dw_tl_membrane.i.%s(c.a, c.b, c.h, v, u) + dw_zero.i.Omega(v, u)' % ctx.region.name, {'f': f},
            Materials([mat]), Variables([u, v]), Integrals([ctx.integral]), mode='weak', verbose=False)
        eqs.time_update_materials(None, verbose=False)
        return eval_equations(eqs, evars, mode='weak', dw_mode=dw_mode, verbose=False)
    close(evaluate(val, 'vector'), ref, 1e-8, 1e-9 * np.abs(ref).max(), 'membrane residual', key='residual')
    K = evaluate(val, 'matrix').toarray()
    w = rs.uniform(-1, 1, nd)
    scale = np.abs(val).max() or 1.0

    def fd(h):
        e = w * h * scale
        a, b = np.zeros(nd), np.zeros(nd)
        for sg, o in ((1, a), (-1, b)):
            for k in used:
                x = (val + sg * e).astype(complex)
                x[k] += 1e-30j
                o[k] = energy(x).imag / 1e-30
        return (a - b) / (2 * h * scale)
    h = 1e-3
    d1, d2 = fd(h), fd(h / 2)
    d = (4 * d2 - d1) / 3
    err = 4 * np.abs(d2 - d1).max() + 1e-9 * np.abs(K).max() * 10
    if err > 1e-3 * np.abs(d).max():
        raise Skip('inaccurate differences')
    close(K @ w, d, 0, err, 'membrane matrix', key='matrix')
    close(K, K.T, 0, 1e-9 * np.abs(K).max(), 'symmetric matrix', key='matrix')
    return {'nontrivial': bool(np.abs(ref).max() > 1e-8), 'classes': [ctx.g, 'order-%d' % case['order']]}


def strat_membrane(_):
    return st.fixed_dictionaries(dict(
        mesh=gen.cases(['3_4', '3_8'], max_cells=6), seed=st.integers(0, 10 ** 6), sub=st.booleans(),
        part=st.booleans(), order=st.just(1), iorder=st.integers(1, 3), vmat=st.booleans(),
        amp=st.sampled_from([0.05, 0.2, 0.4])))


# The shell10x element.

def shell_setup(coors, conn, thick, young, poisson, drill):
    import sfepy.mechanics.shell10x as sh
    mesh = Mesh.from_data('s', coors, None, [conn], [np.zeros(len(conn), dtype=np.int32)], ['2_4'])
    dom = FEDomain('d', mesh)
    om = dom.create_region('Omega', 'all')
    f = Field.from_args('f', np.float64, 6, om, approx_order=1, poly_space_basis='shell10x')
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')
    m = Material('m', values={'D': sh.create_elastic_tensor(young=young, poisson=poisson), '.drill': drill})
    xi, w = Integral('i', order=3).get_qp('3_8')
    xi, w = np.array(xi), np.array(w)
    xi[:, 2] = thick * (xi[:, 2] - 0.5)
    w *= thick
    return f, u, v, m, Integral('i', coors=xi, weights=w, order='custom')


def shell_eval(su, val=None):
    f, u, v, m, integral = su
    u.set_data(np.zeros(f.n_nod * 6) if val is None else val)
    eqs, evars = create_evaluable('dw_shell10x.i.Omega(m.D, m.drill, v, u)', {'f': f}, Materials([m]),
                                  Variables([u, v]), Integrals([integral]), mode='weak', verbose=False)
    eqs.time_update_materials(None, verbose=False)
    out = eval_equations(eqs, evars, mode='weak', dw_mode='matrix' if val is None else 'vector', verbose=False)
    return out.toarray() if val is None else out


def run_shell(case):
    rs = np.random.RandomState(case['seed'])
    nx, ny = case['nx'], case['ny']
    lx, ly = rs.uniform(0.5, 2, 2)
    x, y = np.linspace(0, lx, nx + 1), np.linspace(0, ly, ny + 1)
    gx, gy = np.meshgrid(x, y, indexing='ij')
    hx, hy = lx / nx, ly / ny
    kind = case['kind']
    gx, gy = gx.copy(), gy.copy()
    if kind != 'rect':
        gx += rs.uniform(-0.2, 0.2, gx.shape) * hx
        gy += rs.uniform(-0.2, 0.2, gy.shape) * hy
    gz = np.zeros_like(gx)
    if kind == 'warped':
        gz = rs.uniform(-0.1, 0.1, gx.shape) * min(hx, hy)
    elif kind == 'folded':
        # Columns of cells in different planes.
        ang = rs.uniform(-1, 1, nx)
        dx = np.diff(np.linspace(0, lx, nx + 1))
        gx = np.tile(np.r_[0, np.cumsum(dx * np.cos(ang))][:, None], (1, ny + 1))
        gz = np.tile(np.r_[0, np.cumsum(dx * np.sin(ang))][:, None], (1, ny + 1))
        gy = np.tile(y, (nx + 1, 1))
    coors = np.c_[gx.ravel(), gy.ravel(), gz.ravel()]
    ids = np.arange(coors.shape[0]).reshape(nx + 1, ny + 1)
    conn = np.stack([ids[:-1, :-1], ids[1:, :-1], ids[1:, 1:], ids[:-1, 1:]], -1).reshape(-1, 4).astype(np.int32)
    thick = float(rs.uniform(0.02, 0.3))
    young, poisson = float(rs.uniform(1, 3)), float(rs.uniform(0, 0.45))
    drill = case['drill']
    K0 = shell_eval(shell_setup(coors, conn, thick, young, poisson, drill))
    scale = np.abs(K0).max()
    tol = 1e-9 * scale
    close(K0, K0.T, 0, tol, 'symmetric matrix', key='symmetry')
    if kind != 'warped':
        ev = np.linalg.eigvalsh(0.5 * (K0 + K0.T))
        check(ev[0] > -1e-8 * scale, 'energy not positive: %g' % (ev[0] / scale))
    # Rotated and shifted shell.
    q = np.linalg.qr(rs.normal(size=(3, 3)))[0]
    q *= np.sign(np.linalg.det(q))
    nn = len(coors)
    c1 = coors @ q.T + rs.uniform(-1, 1, 3)
    su = shell_setup(c1, conn, thick, young, poisson, drill)
    K1 = shell_eval(su)
    big = np.kron(np.eye(2 * nn), q)
    close(K1, big @ K0 @ big.T, 0, tol * 10, 'rotated shell', key='rotation')
    val = rs.uniform(-1, 1, 6 * nn)
    close(shell_eval(su, val), K1 @ val, 0, tol * 10, 'residual and matrix', key='residual')
    # Rigid body motions.
    t = np.tile(np.r_[rs.uniform(-1, 1, 3), np.zeros(3)], nn)
    close(K1 @ t, np.zeros(6 * nn), 0, tol, 'translation', key='rigid')
    if drill == 0 and kind != 'warped':
        om = rs.uniform(-1, 1, 3)
        t = np.c_[np.cross(om, c1), np.tile(om, (nn, 1))].ravel()
        close(K1 @ t, np.zeros(6 * nn), 0, tol * 10, 'rotation', key='rigid')
    classes = [kind, 'drill' if drill else 'free']
    if kind in ('rect', 'flat') and drill == 0:
        dd = coors[conn][:, [2, 3], :2] - coors[conn][:, [0, 1], :2]
        area = 0.5 * np.abs(dd[:, 0, 0] * dd[:, 1, 1] - dd[:, 0, 1] * dd[:, 1, 0]).sum()
        D = young / (1 - poisson ** 2) * np.array([[1, poisson, 0], [poisson, 1, 0], [0, 0, (1 - poisson) / 2]])
        g = rs.uniform(-1, 1, (2, 2))
        e = np.array([g[0, 0], g[1, 1], g[0, 1] + g[1, 0]])
        t = np.zeros((nn, 6))
        t[:, :2] = coors[:, :2] @ g.T
        t = t.ravel()
        close(t @ K0 @ t, area * thick * e @ D @ e, 1e-8, tol, 'constant strain energy', key='patch')
        if kind == 'rect':
            # Constant curvatures, w = x^T k x / 2.
            k = rs.uniform(-1, 1, 3) * [1, 1, case['bend']]
            gw = coors[:, :2] @ np.array([[k[0], k[2]], [k[2], k[1]]])
            t = np.zeros((nn, 6))
            t[:, 2] = 0.5 * (gw * coors[:, :2]).sum(1)
            t[:, 3], t[:, 4] = gw[:, 1], -gw[:, 0]
            t = t.ravel()
            e = np.array([k[0], k[1], 2 * k[2]])
            close(t @ K0 @ t, area * thick ** 3 / 12 * e @ D @ e, 1e-8, tol, 'constant curvature energy',
                  key='bending')
    return {'nontrivial': len(conn) > 1, 'classes': classes}


def strat_shell(_):
    return st.fixed_dictionaries(dict(
        nx=st.integers(1, 3), ny=st.integers(1, 3), seed=st.integers(0, 10 ** 6), bend=st.booleans(),
        kind=st.sampled_from(['rect', 'flat', 'folded', 'warped']), drill=st.sampled_from([0.0, 0.0, 1e-7, 1e-3])))


SUBS = [
    Sub('shape', strat_shape, run_shape, 8, 200, items=sorted(TERMS)),
    Sub('struct', strat_struct, run_struct, 80, 1500, items=STRUCT),
    Sub('contact', strat_contact, run_contact, 120, 2500),
    Sub('membrane', strat_membrane, run_membrane, 60, 1000),
    Sub('shell', strat_shell, run_shell, 80, 1500),
]
