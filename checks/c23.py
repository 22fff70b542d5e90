"""C23  Saved analysis files carry the computed results; rfc_calc recomputes the force constants from them."""
import contextlib
import io
import os
import runpy
import sys

import numpy as np

RULE = ('noisy harmonic MD of random and named crystals with random settings; every writer of an analysis called in random order, some '
        'twice, the files re-read by an own parser and compared with the values returned by the same and by another fresh analysis and with '
        'an own dynamical matrix; the companion tool rfc_calc run on the saved files. Non-trivial: a distinct (crystal, settings, order) '
        'combination')
ASSUMPTIONS = ['files are compared to their printed precision (8 decimals in yaml files, 4 for the frequencies of curves)',
               'force constants recomputed from the rounded frequencies agree to what the rounding allows']
MONITORS = ['quasiparticle_file', 'shifts', 'group_velocity_file', 'bands_file', 'bands_points', 'bands_harmonic', 'bands_renormalized', 'bands_linewidth', 'mesh_linewidths', 'branches_matched',
            'mesh_file', 'mesh_points', 'mesh_frequencies', 'constants_file', 'frequencies_file', 'curve_file', 'projection_file',
            'written_again', 'rfc_constants', 'rfc_figure', 'rfc_points', 'rfc_symmetrised']
MIN_NONTRIVIAL = 20
CPU_LIMIT = 400


def generate(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([{'kind': 'write', 'seed': seed * 2311 + i} for i in range(40 * k)] +
            [{'kind': 'rfc', 'seed': seed * 2333 + i} for i in range(40 * k)])


def read_yaml(f):
    import yaml
    with open(f) as h:
        return yaml.load(h, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))


def analysis(rng, cr, qp, symmetric):
    """crystal, force constants, and a function making equal fresh analyses"""
    from dynaphopy.dynamics import Dynamics
    while True:
        if symmetric or rng.integers(3):
            c = cr.named_crystal(str(rng.choice(['cscl', 'bcc', 'sc', 'tetra', 'fcc', 'ortho'])))
        else:
            c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
        sc = [int(x) for x in rng.permutation([1, int(rng.integers(1, 3)), int(rng.integers(1, 4))])]
        if 2 <= c.n * np.prod(sc) <= 8:
            break
    fsc = list(sc) if rng.integers(2) else [int(x) for x in rng.permutation([1, 1, 2])]
    md_comm = bool(rng.integers(2))
    fc = qp.springs(c, fsc, rng)
    hfc = qp.springs(c, sc, rng)
    h = cr.Harmonic(c, hfc, sc)
    t, x, v = h.trajectory(rng, int(rng.integers(500, 900)), .01, 150.)
    v = v + rng.normal(size=v.shape) * .5
    s = cr.to_structure(c, fc, fsc)
    d = cr.to_dynamics(c, s, sc, disp=x, velocity=v, dt=.01)
    data = (np.array(d.trajectory), v.copy(), np.array(d.get_time()), np.array(d.get_supercell()))
    top = float(np.round(max(h.freq.max(), cr.Harmonic(c, fc, fsc).freq.max()) * 1.3, 1))
    qs = cr.commensurate_q(c, sc)
    paths = [[[0., 0., 0.], [float(x) for x in rng.choice([0, .5, .25], 3)]] for _ in range(int(rng.integers(1, 3)))]
    paths = [p for p in paths if np.any(p[1])] or [[[0., 0., 0.], [.5, 0., 0.]]]
    p = dict(use_symmetry=bool(rng.integers(2)), use_MD_cell_commensurate=md_comm, symmetrize=bool(symmetric and rng.integers(2)),
             fitting_function=int(rng.choice([0, 0, 0, 1, 2])), power_spectra_algorithm=int(rng.choice([1, 2, 2, 0, 3])),
             mesh_phonopy=tuple(int(x) for x in rng.integers(2, 4, 3)), band_resolution=int(rng.integers(3, 8)),
             number_of_coefficients_mem=25, reduced_q_vector=np.array(qs[int(rng.integers(len(qs)))]),
             spectrum_resolution=.1, frequency_range=np.arange(0, top, float(rng.choice([.1, .25]))))
    if rng.integers(2):
        if rng.integers(2):
            paths = [[np.array(x) for x in r] for r in paths]           # as the input file reader gives them
        p['band_ranges'] = {'ranges': paths}
        if rng.integers(2):
            p['band_ranges']['labels'] = [['G', 'X%d' % i] for i in range(len(paths))]
    if rng.integers(3) == 0:
        p['save_renormalized_frequencies'] = True

    def new(**kw):
        x, v, t, cell = data
        dd = Dynamics(structure=cr.to_structure(c, fc, fsc), trajectory=x.copy(), velocity=v.copy(), time=t.copy(), supercell=cell.copy())
        return qp.make(dd, **dict(p, **kw))
    return c, sc, fc, fsc, new, p


@contextlib.contextmanager
def output():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def run_case(case, mon):
    import matplotlib
    matplotlib.use('Agg')
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    (write if case['kind'] == 'write' else rfc)(case, mon, rng, cr, qp)


def table(f):
    with open(f) as h:
        return [[float(x) for x in line.split()] for line in h if line.strip()]


def complex_table(f):
    with open(f) as h:
        return [[complex(x) for x in line.split()] for line in h if line.strip()]


def read_constants(f):
    with open(f) as h:
        tok = h.read().split()
    first = 2 if int(tok[1]) * int(tok[0]) * 11 + 2 == len(tok) else 1
    n, m = int(tok[0]), int(tok[1 if first == 2 else 0])
    a = np.full((n, m, 3, 3), np.nan)
    k = first
    while k < len(tok):
        a[int(tok[k]) - 1, int(tok[k + 1]) - 1] = np.array(tok[k + 2:k + 11], float).reshape(3, 3)
        k += 11
    return a


def branches(d):
    return np.array([d['branch_%d' % i] for i in range(len(d))])


Y = 6e-9


def write(case, mon, rng, cr, qp):
    from checks.c10 import super_order
    c, sc, fc, fsc, new, p = analysis(rng, cr, qp, bool(rng.integers(2)))
    info = '%s %d atoms, MD %s, fc %s, settings %s' % (c.elements, c.n, sc, fsc, {k: p[k] for k in sorted(p) if np.size(p[k]) < 4})
    npr = int(c.types().max()) + 1
    csc = sc if p['use_MD_cell_commensurate'] else fsc
    q = new()
    writers = {
        'quasi': lambda f: q.write_quasiparticles_data(f),
        'extra': lambda f: q.write_quasiparticles_data(f, with_extra=True),
        'bands': lambda f: q.write_renormalized_phonon_dispersion_bands(f),
        'mesh': lambda f: q.write_mesh_data(f),
        'constants': lambda f: q.write_renormalized_constants(f),
        'full': lambda f: q.write_power_spectrum_full(f),
        'wave_vector': lambda f: q.write_power_spectrum_wave_vector(f),
        'phonon': lambda f: q.write_power_spectrum_phonon(f),
        'vc': lambda f: q.save_vc(f, npr),
        'vq': lambda f: q.save_vq(f),
    }
    order = [str(x) for x in rng.permutation(list(writers))]
    order += [str(x) for x in rng.choice(order, 4)]
    try:
        written = {}
        with cr.quiet():
            for k, name in enumerate(order):
                f = '%s_%d' % (name, k)
                writers[name](f)
                written.setdefault(name, []).append(f)
            # the analysis that wrote, and one that did not
            both = []
            for a in (q, new()):
                a_data = a.get_commensurate_points_data()
                both.append({'data': dict({k: np.array(a_data[k]) for k in ('frequencies', 'linewidths', 'frequency_shifts', 'q_points', 'eigenvectors')}, fc_supercell=a_data['fc_supercell']),
                             'fc': a.get_renormalized_force_constants(),
                             'bands': a.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True),
                             'inter': a.get_renormalized_phonon_dispersion_bands(band_connection=True, interconnect_bands=True),
                             'mesh': a.get_mesh_frequencies_and_linewidths(), 'gv': a.get_commensurate_points_properties(),
                             'full': np.array(a.get_power_spectrum_full()), 'wave_vector': np.array(a.get_power_spectrum_wave_vector()),
                             'phonon': np.array(a.get_power_spectrum_phonon()), 'vc': np.array(a.get_vc()), 'vq': np.array(a.get_vq()),
                             'range': np.array(a.get_frequency_range()), 'ranges': a.get_band_ranges_and_labels()})
    except ValueError as e:
        if 'arange' in str(e):
            mon.count('refused_no_frequencies')
            return
        raise
    for name, files in written.items():
        texts = [open(f).read() for f in files]
        mon.check('written_again', all(t == texts[0] for t in texts), '%s differs when written again (%s)' % (name, order))
    R = {k: v[0] for k, v in written.items()}
    nq = c.n * int(np.prod(csc)) // npr
    for who, a in zip(('its own', 'another'), both):
        inf = 'against %s analysis; %s; order %s' % (who, info, order)
        D = a['data']
        for f in ('quasi', 'extra'):
            y = read_yaml(R[f])
            if not mon.check('quasiparticle_file', len(y) == nq == len(D['q_points']), '%d entries, %d wave vectors' % (len(y), nq)):
                continue
            for key, k2 in (('reduced_wave_vector', 'q_points'), ('frequencies', 'frequencies'), ('linewidths', 'linewidths'),
                            ('frequency_shifts', 'frequency_shifts')):
                mon.close('quasiparticle_file', [e[key] for e in y], D[k2], rtol=1e-9, atol=Y, info=key + ' ' + inf)
            mon.check('quasiparticle_file', ('group_velocity' in y[0]) == (f == 'extra'), f)
            if f == 'extra':
                mon.close('group_velocity_file', [[[g[x] for x in 'xyz'] for g in e['group_velocity']] for e in y],
                          np.array(a['gv']['group_velocity']), rtol=1e-6, atol=2e-7, info=inf)
                mon.close('group_velocity_file', np.array(a['gv']['q_points']), D['q_points'], rtol=1e-12)
        y = read_yaml(R['bands'])
        B = a['bands']
        if mon.check('bands_file', len(y) == len(B) == len(a['ranges']['ranges']), inf):
            for g, w, rg, i in zip(y, B, a['ranges']['ranges'], range(99)):
                mon.close('bands_file', g['q_path_distances'], w['q_path_distances'], atol=Y, info=inf)
                for e, k2 in (('inf', 0), ('sup', 1)):
                    mon.close('bands_file', g['q_bounds'][e], rg[k2], rtol=1e-9, atol=Y, info=inf)
                    if 'labels' in a['ranges']:
                        mon.check('bands_file', g['labels'][e] == a['ranges']['labels'][i][k2], '%s %s' % (g['labels'], inf))
                for key in ('harmonic_frequencies', 'renormalized_frequencies', 'frequency_shifts', 'linewidth_minus', 'linewidth_plus',
                            'linewidth'):
                    mon.close('bands_file', branches(g[key]), branches(w[key]), rtol=1e-7, atol=1e-6 if who == 'another' else Y,
                              info=key + ' ' + inf)
        y = read_yaml(R['mesh'])
        qp_, mult, fr, lw = a['mesh']
        if mon.check('mesh_file', len(y) == len(qp_), inf):
            mon.close('mesh_file', [e['reduced_wave_vector'] for e in y], qp_, rtol=1e-9, atol=Y, info=inf)
            mon.check('mesh_file', [e['multiplicity'] for e in y] == [int(m) for m in mult], inf)
            mon.close('mesh_file', [e['frequencies'] for e in y], fr, rtol=1e-8, atol=1e-6 if who == 'another' else Y, info=inf)
            mon.close('mesh_file', [e['linewidths'] for e in y], lw, rtol=1e-8, atol=1e-6 if who == 'another' else Y, info=inf)
        arr = np.array(a['fc'].get_array())
        mon.close('constants_file', read_constants(R['constants']), arr, atol=1e-15 * 0 + 6e-13, rtol=1e-9, info=inf)
        for name in ('full', 'wave_vector', 'phonon'):
            tb = table(R[name])
            w = a[name] if a[name].ndim == 2 else a[name][:, None]
            if mon.check('curve_file', len(tb) == len(a['range']) and all(len(r) == 1 + w.shape[1] for r in tb), '%s %s' % (name, inf)):
                tb = np.array(tb)
                mon.close('curve_file', tb[:, 0], a['range'], atol=5.1e-5, info=name + ' ' + inf)
                mon.close('curve_file', tb[:, 1:], w, rtol=1e-9, info=name + ' ' + inf)
        mon.close('projection_file', complex_table(R['vc']), a['vc'][:, npr - 1, :], rtol=1e-8, info=inf)
        mon.close('projection_file', complex_table(R['vq']), a['vq'], rtol=1e-8, info=inf)
        if p.get('save_renormalized_frequencies'):
            mon.close('frequencies_file', np.loadtxt('renormalized_frequencies', ndmin=2), D['frequencies'], rtol=1e-12, info=inf)
        else:
            mon.check('frequencies_file', not os.path.exists('renormalized_frequencies'), 'a file that was not asked for')
        if p['use_symmetry'] and c.n > 1 and who == 'its own':
            mon.count('symmetric')
    # meaning, by an own dynamical matrix
    a = both[0]
    D = a['data']
    comm = cr.commensurate_q(c, csc)
    key = lambda v: tuple(np.mod(np.round(np.mod(v, 1), 5), 1))
    mon.check('quasiparticle_file', sorted(key(x) for x in D['q_points']) == sorted(key(x) for x in comm), info)
    top = max(cr.frequencies(cr.dyn_matrix(c, fc, fsc, x)).max() for x in list(comm) + list(cr.commensurate_q(c, fsc)))
    for x, f, sh in zip(D['q_points'], D['frequencies'], D['frequency_shifts']):
        w = cr.frequencies(cr.dyn_matrix(c, fc, fsc, x))
        g = f - sh
        if p['use_symmetry']:
            # taken over from an equivalent wave vector, where force constants without the symmetry may differ
            w = min([w] + [cr.frequencies(cr.dyn_matrix(c, fc, fsc, x2)) for x2, f2 in zip(D['q_points'], D['frequencies'])
                           if np.array_equal(f, f2)], key=lambda z: np.abs(np.sign(g) * g ** 2 - np.sign(z) * z ** 2).max())
        mon.close('shifts', np.sign(g) * g ** 2, np.sign(w) * w ** 2, scale=top ** 2, rtol=1e-6, info='q %s %s' % (x, info))
    rfc_own = np.array(a['fc'].get_array())
    order2 = super_order(cr.to_structure(c, fc, csc), csc, c)
    rfc_own = rfc_own[np.ix_(order2, order2)]
    lim = top ** 2 + np.abs(D['frequencies']).max() ** 2

    def constants(f):
        import dynaphopy.interface.phonopy_link as pl
        with cr.quiet():
            k = np.array(pl.get_renormalized_force_constants(f, D['eigenvectors'], new().dynamic.structure, D['fc_supercell'],
                                                             symmetrize=p['symmetrize']).get_array())
        return k[np.ix_(order2, order2)]
    F, W = np.array(D['frequencies']), np.array(D['linewidths'])
    wide = {'linewidth_plus': constants(F + W / 2), 'linewidth_minus': constants(F - W / 2)}
    lim2 = lim + (np.abs(F) + W).max() ** 2
    # the branches are matched by eigenvectors: every one is there
    y = read_yaml(R['bands'])
    rec = np.linalg.inv(c.primitive_cell()).T if hasattr(c, 'primitive_cell') else None
    for band in y + a['inter']:
        q0, q1 = np.array(band['q_bounds']['inf']), np.array(band['q_bounds']['sup'])
        hb, rb = branches(band['harmonic_frequencies']), branches(band['renormalized_frequencies'])
        npt = p['band_resolution'] + 1
        if not mon.check('bands_points', hb.shape == rb.shape == (3 * npr, npt), '%s points' % (hb.shape,)):
            continue
        mon.close('bands_points', branches(band['frequency_shifts']), rb - hb, atol=3e-8, info=info)
        if 'linewidth' in band:
            mon.close('bands_points', branches(band['linewidth']), branches(band['linewidth_plus']) - branches(band['linewidth_minus']),
                      atol=3e-8, info=info)
            for nm, K in wide.items():
                for j in range(npt):
                    x = q0 + (q1 - q0) * j / (npt - 1.)
                    w = cr.frequencies(cr.dyn_matrix(c, K, csc, x))
                    g = np.sort(branches(band[nm])[:, j])
                    mon.close('bands_linewidth', np.sign(g) * g ** 2, np.sign(w) * w ** 2, scale=lim2, rtol=2e-5, info='%s q %s, %s' % (nm, x, info))
        if any(band is z for z in y):
            matched(mon, cr, c, (fc, fsc), (rfc_own, csc), hb, rb, q0, q1, npt, lim, info)
        dist = np.array(band['q_path_distances'])
        pr = np.dot(c.pm.T, c.cell)
        step = np.linalg.norm(np.dot(np.linalg.inv(pr), q1 - q0))
        mon.close('bands_points', np.diff(dist), np.full(npt - 1, step / (npt - 1)), atol=5e-8 + 1e-7 * step, info=info)
        for j in range(npt):
            x = q0 + (q1 - q0) * j / (npt - 1.)
            for nm, m, K, size in (('bands_harmonic', hb, fc, fsc), ('bands_renormalized', rb, rfc_own, csc)):
                w = cr.frequencies(cr.dyn_matrix(c, K, size, x))
                g = np.sort(m[:, j])
                mon.close(nm, np.sign(g) * g ** 2, np.sign(w) * w ** 2, scale=lim, rtol=2e-5,
                          info='%s q %s, %s' % (np.round(g, 4), x, info))
    qp_, mult, fr, lw = a['mesh']
    mon.check('mesh_points', int(sum(mult)) == int(np.prod(p['mesh_phonopy'])), '%s %s' % (sum(mult), info))
    g = np.array(qp_) * np.array(p['mesh_phonopy'])
    # phonopy leaves the grid unshifted for odd sizes, shifts it for none or by half a step
    mon.close('mesh_points', g * 2, np.round(g * 2), atol=1e-6, info=info)
    for x, f in zip(qp_, fr):
        w = cr.frequencies(cr.dyn_matrix(c, rfc_own, csc, x))
        f = np.sort(f)
        mon.close('mesh_frequencies', np.sign(f) * f ** 2, np.sign(w) * w ** 2, scale=lim, rtol=2e-5, info='q %s %s' % (x, info))
    K = constants(W)
    for x, f in zip(qp_, lw):
        w = cr.frequencies(cr.dyn_matrix(c, K, csc, x))
        f = np.sort(f)
        mon.close('mesh_linewidths', np.sign(f) * f ** 2, np.sign(w) * w ** 2, scale=max(W.max() ** 2, 1e-12), rtol=2e-5, info='q %s %s' % (x, info))
    mon.nontrivial(info, order)
    mon.observe(case=info, order=str(order))


def matched(mon, cr, c, harmonic, renormalised, hb, rb, q0, q1, npt, lim, info):
    """a harmonic and a renormalised branch of the same number have the most similar eigenvectors along the path"""
    from scipy.optimize import linear_sum_assignment
    M = np.zeros((len(hb),) * 2)
    loose = 0                      # overlap that depends on the choice of the eigenvectors of degenerate modes
    for j in range(npt):
        x = q0 + (q1 - q0) * j / (npt - 1.)
        es = []
        for (K, size), m in ((harmonic, hb), (renormalised, rb)):
            w2, e = np.linalg.eigh(cr.dyn_matrix(c, K, size, x))
            close = np.diff(cr.frequencies(cr.dyn_matrix(c, K, size, x))) < 1e-2 * lim ** .5
            if close.any():
                loose += len(hb)
                es = None
                break
            # mode of each branch: by its place in the order of the frequencies
            rank = np.argsort(np.argsort(np.sign(m[:, j]) * m[:, j] ** 2))
            es.append(e[:, rank])
        if es:
            M += np.abs(np.dot(es[0].conj().T, es[1]))
    best = M[linear_sum_assignment(-M)].sum()
    if best <= loose + .1:
        mon.count('degenerate_path')
        return
    mon.check('branches_matched', np.trace(M) > best - loose - 1e-3 * npt, 'overlap %g, best %g %s' % (np.trace(M), best, info))


def tool(name, args):
    old = sys.argv
    sys.argv = [name] + [str(a) for a in args]
    try:
        with output() as out:
            try:
                runpy.run_path(os.path.join(os.environ['DPH_SRC'], 'scripts', name), run_name='__main__')
            except SystemExit as e:
                return out.getvalue(), e.code
    finally:
        sys.argv = old
    return out.getvalue(), 0


def poscar(c, f):
    """own writer: atoms grouped by element, crystal already ordered so"""
    names, num = [], []
    for e in c.elements:
        if not names or names[-1] != e:
            names.append(e)
            num.append(0)
        num[-1] += 1
    with open(f, 'w') as h:
        h.write('check\n1.0\n')
        for r in c.cell:
            h.write(' %.16f %.16f %.16f\n' % tuple(r))
        h.write(' '.join(names) + '\n' + ' '.join(str(i) for i in num) + '\nDirect\n')
        for x in c.scaled:
            h.write(' %.16f %.16f %.16f\n' % tuple(x))


def figure(mon, rng, c, cr, harmonic, renormalised, dim, need, sym, info):
    """the bands drawn by rfc_calc -p, with and without bands of the input file"""
    from checks.c28 import Screen, own_bands, own_distances, squares_close
    from checks.c10 import super_order
    paths = []
    for _ in range(int(rng.integers(0, 3))):
        a, b = (rng.choice([0, .5, .25, 1 / 3.], 3) for _ in range(2))
        if np.abs(a - b).max() > .1:
            paths.append((a, b))
    with open('input') as h:
        text = h.read()
    with open('with_bands', 'w') as h:
        h.write(text + ('\nBANDS\n' + ''.join('%.10f, %.10f, %.10f   %.10f, %.10f, %.10f%s\n' % (tuple(a) + tuple(b) + (
            ' : A,B' if rng.integers(2) else '',)) for a, b in paths) if paths else ''))
    with Screen() as s:
        text, code = tool('rfc_calc', ['with_bands', 'quasi.yaml', '-p'] + (['--fcsymm'] if sym else []) + (dim if need else []))
    if not mon.check('rfc_figure', code in (0, None) and len(s.shows) == 1 and len(s.shows[0]) == 1, 'rfc_calc -p: %s, %s figures; %s' % (text[-300:], len(s.shows), info)):
        return
    axes = s.shows[0][0]
    if not paths:
        from dynaphopy.interface import iofile
        with cr.quiet():
            paths = [tuple(np.array(x) for x in r) for r in cr.to_structure(c, harmonic[0], harmonic[1]).get_path_using_seek_path()['ranges']]
    nb = 3 * (int(c.types().max()) + 1)
    cs = [l for ax in axes for l in ax.curves()]
    if not mon.check('rfc_figure', len(cs) == 2 * nb * len(paths), '%d curves for %d branches on %d paths' % (len(cs), nb, len(paths))):
        return
    order = super_order(cr.to_structure(c, harmonic[0], renormalised[1]), renormalised[1], c)
    K = renormalised[0][np.ix_(order, order)]
    dist = own_distances(c, cr, paths, len(cs[0][0]))
    for word, fc, size in (('harmonic', harmonic[0], harmonic[1]), ('renormalized', K, renormalised[1])):
        mine = [l for ax in axes for l in ax.called(word)]
        if not mon.check('rfc_figure', len(mine) == nb * len(paths), '%d curves called %s' % (len(mine), word)):
            return
        want = own_bands(cr, c, fc, size, paths, len(cs[0][0]))
        for i in range(len(paths)):
            seg = mine[i * nb:(i + 1) * nb]
            mon.close('rfc_figure', np.array([l[0] for l in seg]), np.repeat(dist[i][None], nb, 0), rtol=1e-6, atol=1e-9, info=info)
            squares_close(mon, 'rfc_figure', np.array([l[1] for l in seg]).T, want[i], '%s %s' % (word, info), max(w.max() for w in want) + .1)
    mon.check('rfc_figure', any(ax.xlim[0] <= 1e-9 and ax.xlim[1] >= dist[-1][-1] * (1 - 1e-6) for ax in axes if ax.curves()), 'part of the path is not visible')


def symmetrised(mon, c, cr, csc, dim, info):
    """--fcsymm: the force constants of the run without it, averaged over the symmetry of the supercell"""
    import dynaphopy.interface.phonopy_link as pl
    from phonopy.harmonic.force_constants import set_tensor_symmetry_PJ
    found = []
    for more in [], ['--fcsymm']:
        text, code = tool('rfc_calc', ['input', 'quasi.yaml', '-s', 'out_s'] + more + dim)
        if not mon.check('rfc_symmetrised', code in (0, None) and os.path.exists('out_s'), 'rfc_calc %s: %s, code %s; %s' % (more + dim, text[-300:], code, info)):
            return
        found.append(read_constants('out_s'))
        os.remove('out_s')
    with cr.quiet():
        ph = pl.get_phonon(cr.to_structure(c), setup_forces=False, custom_supercell=np.diag(csc))
    want = found[0].copy()
    set_tensor_symmetry_PJ(want, ph.supercell.cell.T, ph.supercell.scaled_positions, ph.symmetry)
    mon.close('rfc_symmetrised', found[1], want, scale=np.abs(found[0]).max(), rtol=1e-7, info=info)
    mon.count('symmetry_matters', int(np.abs(want - found[0]).max() > 1e-4 * np.abs(found[0]).max()))


def rfc(case, mon, rng, cr, qp):
    import dynaphopy.interface.phonopy_link as pl
    while True:
        c, sc, fc, fsc, new, p = analysis(rng, cr, qp, bool(rng.integers(2)))
        if len(set(c.elements)) == sum(1 for i in range(c.n) if i == 0 or c.elements[i] != c.elements[i - 1]):
            break
    csc = sc if p['use_MD_cell_commensurate'] else fsc
    sym = bool(p['symmetrize'])
    info = '%s %d atoms, MD %s, fc %s, %s' % (c.elements, c.n, sc, fsc, {k: p[k] for k in sorted(p) if np.size(p[k]) < 4})
    poscar(c, 'POSCAR')
    fco = pl.ForceConstants(np.array(cr.to_structure(c, fc, fsc).get_force_constants().get_array()), supercell=np.diag(fsc))
    pl.save_force_constants_to_file(fco, 'FC')
    with open('input', 'w') as h:
        h.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\nFC\n\nPRIMITIVE MATRIX\n')
        for r in c.pm:
            h.write('%.16f %.16f %.16f\n' % tuple(r))
        h.write('\nSUPERCELL MATRIX\n%d 0 0\n0 %d 0\n0 0 %d\n' % tuple(fsc))
    try:
        with cr.quiet():
            q = new()
            q.write_quasiparticles_data('quasi.yaml', with_extra=bool(rng.integers(2)))
            want = np.array(q.get_renormalized_force_constants().get_array())
            data = q.get_commensurate_points_data()
    except ValueError as e:
        if 'arange' in str(e):
            mon.count('refused_no_frequencies')
            return
        raise
    dim = ['--dim'] + [str(x) for x in csc]
    need = list(csc) != list(fsc)
    symmetrised(mon, c, cr, csc, dim if need else [], info)
    omega = [cr.frequencies(cr.dyn_matrix(c, fc, fsc, x)) for x in data['q_points']]
    top = max(np.max(w ** 2) for w in omega)
    for w, f in zip(omega, data['frequencies']):
        # degenerate modes with different fits depend on the choice of the eigenvectors
        w2 = np.sign(w) * w ** 2
        for i in range(len(w)):
            for j in range(i):
                if abs(w2[i] - w2[j]) < 1e-5 * top and abs(f[i] - f[j]) > 1e-7:
                    mon.count('ambiguous_degenerate')
                    return
    args = ['input', 'quasi.yaml', '-s', 'out'] + (['--fcsymm'] if sym else []) + (dim if need or rng.integers(2) else [])
    text, code = tool('rfc_calc', args)
    if mon.check('rfc_constants', code in (0, None) and os.path.exists('out'), 'rfc_calc %s: %s, code %s; %s' % (args, text[-300:], code, info)):
        got = read_constants('out')
        # frequencies near zero are rounded to 8 decimals
        mon.close('rfc_constants', got, want, rtol=3e-6, info='%s %s' % (args, info))
        figure(mon, rng, c, cr, (fc, fsc), (got, csc), dim, need, sym, info)
    args = ['input', '-cp'] + (dim if need else [])
    text, code = tool('rfc_calc', args)
    pts = [[float(x) for x in line.replace('[', ' ').replace(']', ' ').split()] for line in text.splitlines() if line.strip().startswith('[')]
    mon.close('rfc_points', np.array(pts), np.array(data['q_points']), atol=1e-6, info='%s %s' % (args, info))
    mon.nontrivial(info, args)
    mon.observe(case=info, args=str(args))
