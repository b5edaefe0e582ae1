"""Definition and solution of the cell problems of H01 (run also in spawned processes)."""
import json
import os
import sys

if __name__ in ('__main__', '__mp_main__'):
    HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
    import bootstrap
    bootstrap.setup()

import numpy as np

COEFS = ['A', 'D', 'Dn', 'B', 'Ae', 'As', 'Ao', 'An', 'Apar', 'F', 'O', 'N', 'Ds']


def match_fun(ax, dim):
    import sfepy.discrete.fem.periodic as per
    if dim == 2:
        name = 'match_%s_line' % 'yx'[ax]
    else:
        name = 'match_%s_plane' % 'xyz'[ax]
    return name, getattr(per, name)


def set_biot(variables, ir, ic, mode, pis, corrs_rs):
    variables['Pi1'].set_data(pis.states[ir, ic]['u'] + corrs_rs.states[ir, ic]['u'])
    variables['P1'].set_data(np.ones(variables['P1'].n_dof))


def set_first(variables, ir, ic, mode, pip, corrs_p):
    for name, k in (('P1', 0 if ir is None else ir), ('P2', 0)):
        variables[name].set_data(pip.states[k]['p'] + corrs_p.states[k]['p'])


def set_one(variables, pip, corrs_p):
    for name in ('P1', 'P2'):
        variables[name].set_data(pip.states[0]['p'] + corrs_p.states[0]['p'])


def set_par(variables, ir, pip, corrs_p):
    for name in ('P1', 'P2'):
        variables[name].set_data(pip.states[ir]['p'] + corrs_p.states[ir]['p'])


def set_ds(variables, ir, ic, mode, pis, corrs_rs):
    for name, k in (('Pi1', (ir, ic)), ('Pi2', (0, 0))):
        variables[name].set_data(pis.states[k]['u'] + corrs_rs.states[k]['u'])


def update_coors(coors, macro_data, problem):
    """Stretch the cells."""
    dim = coors.shape[2]
    for im in range(len(coors)):
        coors[im] *= [1 + 0.3 * (im + 1) * (k + 1) for k in range(dim)]


def sides(dim):
    return [('Left', 'Right'), ('Bottom', 'Top')] if dim == 2 else \
        [('Left', 'Right'), ('Near', 'Far'), ('Bottom', 'Top')]


def definition(data, path, multi):
    import sfepy.homogenization.coefs_base as cb
    from sfepy.homogenization.utils import define_box_regions
    x = np.array(data['coors'])
    dim = x.shape[1]
    lo, hi = x.min(0), x.max(0)
    rs = np.random.RandomState(data['perm'])

    def shuffled(d):
        keys = list(d)
        return {keys[i]: d[keys[i]] for i in rs.permutation(len(keys))}
    nph = len(data['phases'])
    used = sorted(set(data['phase']))
    regions = {'Y': 'all'}
    for k in used:
        regions['Y%d' % k] = 'cells of group %d' % (k + 1)
    # The region of the first used phase.
    regions['YF'] = 'cells of group %d' % (used[0] + 1)
    regions.update(define_box_regions(dim, lo, hi))
    mat = {p: {'Y%d' % k: np.array(data['phases'][k][p]) if p != 'al' else
               np.array(data['phases'][k][p])[:, None] for k in used} for p in ('D', 'K', 'al')}
    funs, epbcs = {}, {}
    for ax, (a, b) in enumerate(sides(dim)):
        name, f = match_fun(ax, dim)
        funs[name] = (f,)
        for v in 'up':
            epbcs['per_%s_%d' % (v, ax)] = ([a, b], {v + '.all': v + '.all'}, name)
    pu, pp = [['per_%s_%d' % (v, ax) for ax in range(dim)] for v in 'up']
    o = data['order']
    both = lambda r, c: [('%s1' % r[1], r[0], c), ('%s2' % r[1], r[0], c)]
    reqs = {
        'pis': {'variables': ['u'], 'class': cb.ShapeDimDim},
        'pip': {'variables': ['p'], 'class': cb.ShapeDim},
        'corrs_rs': {'requires': ['pis'], 'ebcs': ['fix_u'], 'epbcs': pu,
                     'equations': {'e': 'dw_lin_elastic.i.Y(m.D, v, u) = '
                                        '- dw_lin_elastic.i.Y(m.D, v, Pi)'},
                     'set_variables': [('Pi', 'pis', 'u')], 'class': cb.CorrDimDim,
                     'is_linear': bool(data['seed'] & 1), 'save_name': 'corrs_rs'},
        'corrs_p': {'requires': ['pip'], 'ebcs': ['fix_p'], 'epbcs': pp,
                    'equations': {'e': 'dw_diffusion.i.Y(m.K, q, p) = '
                                       '- dw_diffusion.i.Y(m.K, q, P)'},
                    'set_variables': [('P', 'pip', 'p')], 'class': cb.CorrDim,
                    'is_linear': bool(data['seed'] & 2)},
    }
    U, Q = ('pis', 'corrs_rs'), ('pip', 'corrs_p')
    ku, kp = 'dw_lin_elastic.i.Y(m.D, Pi1, Pi2)', 'dw_diffusion.i.Y(m.K, P1, P2)'
    rq = lambda t: list(t) if rs.randint(2) else list(t)[::-1]
    coefs = {
        'A': {'requires': rq(Q), 'expression': kp, 'class': cb.CoefDimDim,
              'set_variables': [('P1', Q, 'p'), ('P2', Q, 'p')]},
        'D': {'requires': rq(U), 'expression': ku, 'class': cb.CoefSymSym,
              'set_variables': [('Pi1', U, 'u'), ('Pi2', U, 'u')]},
        'Dn': {'requires': rq(U), 'expression': ku, 'class': cb.CoefNonSymNonSym,
               'set_variables': [('Pi1', U, 'u'), ('Pi2', U, 'u')]},
        'B': {'requires': rq(U), 'expression': 'dw_biot.i.Y(m.al, Pi1, P1)', 'class': cb.CoefSym,
              'set_variables': set_biot},
        'Ae': {'requires': ['c.A'], 'expression': '2 * c.A + c.A.T', 'class': cb.CoefEval},
        'As': {'requires': ['c.A', 'c.A'], 'class': cb.CoefSum},
        'Ao': {'requires': rq(Q), 'expression': kp, 'class': cb.CoefOne, 'set_variables': set_one},
        'An': {'requires': rq(Q), 'expression': kp, 'class': cb.CoefDim, 'set_variables': set_first},
        'Apar': {'requires': rq(Q), 'expression': 'dw_diffusion.%s.Y(m.K, P1, P2)',
                 'expr_pars': ['i'] * dim, 'class': cb.CoefExprPar, 'set_variables': set_par},
        'F': {'regions': ['YF'], 'expression': 'ev_volume.i.%s(p)', 'class': cb.VolumeFractions},
        'O': {'expression': 'ev_volume.i.YF(p)', 'class': cb.CoefOne},
        'N': {'class': cb.CoefNone},
        'Ds': {'requires': rq(U), 'expression': ku, 'class': cb.CoefSym, 'set_variables': set_ds},
    }
    coefs = {k: coefs[k] for k in data['coefs']}
    V = float(np.prod(hi - lo))
    vol = {'expr': {'volume': {'expression': 'ev_volume.i.Y(p)'}},
           'value': {'volume': {'value': V}}, 'other': {'volume': {'value': 2 * V}},
           'volumes': {'volumes': {'total': {'expression': 'ev_volume.i.Y(u)'},
                                   'part': {'value': 7 * V}}}}[data['vol']]
    if data['vol'] == 'volumes':
        for c in coefs.values():
            c['set_volume'] = 'total'
    options = dict(coefs='coefs', requirements='requirements', ls='ls', nls='n', output_dir=path,
                   coefs_filename='coefs', return_all=True, multiprocessing=multi,
                   compute_only=data['only'] or None, save_formats=['h5'], max_workers=3, **vol)
    if data['micro']:
        options.update(n_micro=data['micro'], micro_update={'coors': update_coors},
                       chunk_size=1)
    return dict(
        regions=regions, materials={'m': (mat,)}, fields={'fu': ('real', dim, 'Y', o),
                                                          'fp': ('real', 1, 'Y', o)},
        variables={'u': ('unknown field', 'fu', 0), 'v': ('test field', 'fu', 'u'),
                   'Pi': ('parameter field', 'fu', 'u'),
                   'Pi1': ('parameter field', 'fu', '(set-to-None)'),
                   'Pi2': ('parameter field', 'fu', '(set-to-None)'),
                   'p': ('unknown field', 'fp', 1), 'q': ('test field', 'fp', 'p'),
                   'P': ('parameter field', 'fp', 'p'),
                   'P1': ('parameter field', 'fp', '(set-to-None)'),
                   'P2': ('parameter field', 'fp', '(set-to-None)')},
        functions=funs, epbcs=epbcs,
        ebcs={'fix_u': ('Corners', {'u.all': 0.0}), 'fix_p': ('Corners', {'p.all': 0.0})},
        integrals={'i': 2 * o}, requirements=shuffled(reqs), coefs=coefs, options=options,
        solvers={'ls': ('ls.scipy_direct', {}),
                 'n': ('nls.newton', {'i_max': 1, 'eps_a': 1e-6})})


def compute(data, path, multi):
    from sfepy.base.base import Struct
    from sfepy.base.conf import ProblemConf, get_standard_keywords
    from sfepy.discrete.fem import Mesh
    from sfepy.homogenization.homogen_app import HomogenizationApp
    import sfepy.discrete.fem.periodic as per
    per.periodic_cache.clear()
    x = np.array(data['coors'])
    conn = np.array(data['conn'], dtype=np.int32)
    mesh = Mesh.from_data('cell', x, None, [conn],
                          [np.array(data['phase'], dtype=np.int32) + 1], [data['kind']])
    name = os.path.join(path, 'cell.mesh')
    mesh.write(name, io='auto', verbose=False)
    required, other = get_standard_keywords()
    required.remove('equations')
    d = definition(data, path, multi)
    d['filename_mesh'] = name
    conf = ProblemConf.from_dict(d, sys.modules[__name__], required, other)
    conf._filename = None
    if multi:
        conf._filename = os.path.join(path, 'conf.py')
        open(conf._filename, 'w').close()
        conf.options['output_dir'] = os.path.join(path, 'out')
        os.makedirs(conf.options['output_dir'], exist_ok=True)
    app = HomogenizationApp(conf, Struct(output_filename_trunk=None), 'h:')
    if data['micro']:
        app.setup_macro_data({})
    coefs, deps = app()
    xs = None
    if data['micro']:
        xs = np.array(app.micro_states['coors'])
    return coefs, deps, xs


def main():
    path = sys.argv[1]
    with open(os.path.join(path, 'in.json')) as fd:
        datas = json.load(fd)
    import h01
    import sfepy.homogenization.multiproc as multiproc
    outs = []
    for i, data in enumerate(datas):
        sub = os.path.join(path, 'c%d' % i)
        os.makedirs(sub)
        coefs, deps, xs = compute(data, sub, True)
        d = h01.to_plain({k: v for k, v in coefs.to_dict().items() if k != 'save_names'})
        outs.append(dict(coefs=d, coors=h01.to_plain(xs), multi=multiproc.get_workers() is not None))
    tmp = os.path.join(path, 'tmp.json')
    with open(tmp, 'w') as fd:
        json.dump(outs, fd)
    os.rename(tmp, os.path.join(path, 'out.json'))


if __name__ == '__main__':
    main()
