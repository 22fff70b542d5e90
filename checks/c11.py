"""C11  Symmetry-equivalent wave vectors and commensurability."""
import numpy as np

RULE = ('named symmetric crystals and random ones (any orientation, centring, atom order), special, commensurate and random '
        'wave vectors: listed equivalents judged by frequencies of an own dynamical matrix, uniqueness, presence of the '
        'vector itself; commensurability judged by periodicity in the MD cell, including near misses; symmetry-averaged '
        'spectra against the mean of the plain ones; stored quasiparticle data of equivalent points. Non-trivial: a distinct '
        '(crystal, wave-vector class, number of equivalents) combination')
ASSUMPTIONS = ['pair springs depending on species and distance have the full symmetry of the crystal',
               'wave vectors within 1e-4 (in units of MD reciprocal vectors) of a commensurate one count as commensurate']
MONITORS = ['same_frequencies', 'contains_itself', 'no_repetition', 'commensurate', 'not_commensurate', 'average',
            'stored_equal', 'stored_eigenvectors', 'stored_own', 'stored_shift', 'vector_kept']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 250
NAMES = ['nacl', 'diamond', 'zb', 'cscl', 'fcc', 'bcc', 'tetra', 'sc', 'hcp', 'wurtzite', 'rocksalt_rot', 'l10', 'decorated']


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return ([{'kind': 'equiv', 'seed': seed * 503 + i} for i in range(44 * k)] +
            [{'kind': 'comm', 'seed': seed * 509 + i} for i in range(60 * k)] +
            [{'kind': 'average', 'seed': seed * 521 + i} for i in range(22 * k)] +
            [{'kind': 'stored', 'seed': seed * 523 + i} for i in range(11 * k)] +
            [{'kind': 'own', 'seed': seed * 541 + i} for i in range(26 * k)])


def crystal_of(name, rng, cr):
    if name == 'hcp':
        a = 3.0
        return cr.Crystal([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, 1.6 * a]],
                          [[1 / 3., 2 / 3., .25], [2 / 3., 1 / 3., .75]], ['Mg', 'Mg'])
    if name == 'wurtzite':
        a = 3.2
        return cr.Crystal([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, 1.63 * a]],
                          [[1 / 3., 2 / 3., 0], [2 / 3., 1 / 3., .5], [1 / 3., 2 / 3., .375], [2 / 3., 1 / 3., .875]],
                          ['Ga', 'Ga', 'N', 'N'])
    if name == 'l10':        # cubic positions, tetragonal order of the species
        a = 3.9
        c = cr.Crystal(np.eye(3) * a, [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]], ['Cu', 'Cu', 'Au', 'Au'])
        k = rng.permutation(3)
        return cr.Crystal(c.cell, c.scaled[:, k], c.elements)
    if name == 'decorated':  # a simple lattice whose species leave little of its symmetry
        sc = [[2, 1, 1], [1, 2, 2], [2, 2, 1], [1, 1, 3]][int(rng.integers(4))]
        g = np.array([[i, j, k] for i in range(sc[0]) for j in range(sc[1]) for k in range(sc[2])])
        el = rng.choice(['Na', 'Cl', 'Mg'], len(g))
        el[0] = 'Na'
        el[-1] = 'Cl'
        return cr.Crystal(np.diag(np.array(sc) * 3.2), g / np.array(sc, float), list(el))
    if name == 'rocksalt_rot':
        c = cr.named_crystal('nacl')
        return cr.Crystal(np.dot(c.cell, cr.rand_rotation(rng)), c.scaled, c.elements, c.pm)
    return cr.named_crystal(name)


def run_case(case, mon):
    from lib import crystal as cr, qp
    import dynaphopy.interface.phonopy_link as pl
    rng = np.random.default_rng(case['seed'])
    qp.reset_parameters()
    kind = case['kind']
    name = NAMES[case['seed'] % len(NAMES)]
    if kind in ('equiv',):
        c = crystal_of(name, rng, cr)
        sc = [1, 1, 1] if c.n > 3 else [2, 2, 2]
        fc = c.spring_fc(sc, 4.6 if c.n > 1 else 4.8, rng)
        s = cr.to_structure(c, fc, sc)
        w0 = cr.frequencies(cr.dyn_matrix(c, fc, sc, [.1, .2, .35]))
        comm = cr.commensurate_q(c, [2, 2, 2])
        for k in range(8):
            cls = ['comm', 'special', 'random', 'line', 'rounded', 'noisy', 'third', 'large'][k]
            if cls == 'comm':
                q = comm[int(rng.integers(len(comm)))]
            elif cls == 'special':
                q = rng.choice([0, .5, .25, .75], 3)
            elif cls == 'random':
                q = np.round(rng.uniform(0, .5, 3), 3)
            elif cls == 'line':
                q = np.array([1., 1., 0])[rng.permutation(3)] * rng.uniform(0, .5)
            elif cls == 'rounded':
                q = np.round(rng.choice([1 / 3., 2 / 3., 1 / 6.], 3), 6)
            elif cls == 'noisy':
                q = rng.choice([.1, .2, .3, .7], 3)
            elif cls == 'third':
                q = rng.choice([0, 1 / 3., 2 / 3.], 3)
            else:
                q = rng.choice([.5, 1, 1.5, 0, .25], 3)
            arg = q if rng.integers(2) else list(q)
            with cr.quiet():
                lst = np.array(pl.get_equivalent_q_points_by_symmetry(arg, s))
            info = '%s q %s: %s' % (name, q, np.array_str(lst, precision=17).replace('\n', ' ')[:250])
            mon.check('contains_itself', lst.ndim == 2 and (np.abs(lst - q).max(axis=1) < 1e-8).any(), info)
            dist = np.abs(lst[:, None] - lst[None]).max(axis=2) + np.eye(len(lst))
            mon.check('no_repetition', dist.min() > 2e-7, info)
            w = cr.frequencies(cr.dyn_matrix(c, fc, sc, q))
            for x in lst:
                y = cr.frequencies(cr.dyn_matrix(c, fc, sc, x))
                mon.close('same_frequencies', np.sign(y) * y ** 2, np.sign(w) * w ** 2, scale=(w0 ** 2).max(), rtol=1e-6,
                          info=info)
            mon.nontrivial(name, cls, len(lst))
        mon.observe(crystal=name, q=str(q), equivalents=len(lst))
        return
    if kind == 'comm':
        c = cr.random_crystal(rng, ['cubic', 'hex', 'mono', 'tri', 'rot', 'left', 'skew'][case['seed'] % 7],
                              ['P', 'F', 'I', 'C', 'D', 'T', 'A'][(case['seed'] // 7) % 7])
        sc = [int(x) for x in rng.integers(1, 5, 3)]
        while c.n * np.prod(sc) > 150:
            sc = [int(x) for x in rng.integers(1, 4, 3)]
        s = cr.to_structure(c)
        v = rng.normal(size=(2, c.n * int(np.prod(sc)), 3))
        d = cr.to_dynamics(c, s, sc, velocity=v, disp=v * 0)
        q = qp.make(d)
        comm = cr.commensurate_q(c, sc)
        with cr.quiet():
            for x in comm:
                g = rng.integers(-2, 3, 3) * rng.integers(0, 2)
                y = x + g
                y = y + rng.uniform(-2e-6, 2e-6, 3)
                mon.check('commensurate', bool(q.check_commensurate(y)), '%s is commensurate with %s x %s (%d atoms)'
                          % (y, sc, np.array_str(c.pm).replace('\n', ''), c.n))
            for _ in range(60):
                y = comm[int(rng.integers(len(comm)))] + rng.normal(size=3) * rng.choice([.3, .02, .003]) * rng.integers(0, 2, 3)
                # fractions of neighbouring sizes
                if rng.random() < .4:
                    y = rng.integers(0, 7, 3) / float(rng.integers(2, 7))
                if cr.is_commensurate(c, sc, y, 1e-5):
                    mon.check('commensurate', bool(q.check_commensurate(y)), '%s is commensurate with %s' % (y, sc))
                elif not cr.is_commensurate(c, sc, y, 6e-4):
                    mon.check('not_commensurate', not q.check_commensurate(y), '%s is not commensurate with %s x %s'
                              % (y, sc, np.array_str(c.pm).replace('\n', '')))
                if rng.random() < .1:
                    with cr.quiet() as o:
                        q.set_reduced_q_vector(y)
                        q.full_clear()
                        q.get_vc()
                    warned = 'not a commensurate' in o.getvalue()
                    if cr.is_commensurate(c, sc, y, 1e-5) or not cr.is_commensurate(c, sc, y, 6e-4):
                        mon.check('commensurate', warned != cr.is_commensurate(c, sc, y, 1e-4),
                                  'warning %s for %s in %s' % (warned, y, sc))
        mon.nontrivial('comm', case['seed'] % 49, tuple(sc))
        mon.observe(supercell=str(sc), commensurate=len(comm))
        return
    c = crystal_of(name, rng, cr)
    sc = [1, 1, 1] if c.n > 3 else [2, 2, 2]
    if c.n * np.prod(sc) > 16:
        sc = [2, 2, 1]
    if kind == 'average' and rng.integers(2):
        sc = [int(x) for x in rng.permutation([1, 1, int(rng.integers(2, 5 if c.n < 5 else 3))])]
    fc = c.spring_fc([1, 1, 1] if c.n > 3 else [2, 2, 2], 4.6 if c.n > 1 else 4.8, rng)
    fsc = [1, 1, 1] if c.n > 3 else [2, 2, 2]
    s = cr.to_structure(c, fc, fsc)
    nat = c.n * int(np.prod(sc))
    n = 600
    if kind == 'average':
        v = rng.normal(size=(n, nat, 3)) * 3
        d = cr.to_dynamics(c, s, sc, velocity=v, disp=v * 0, dt=.005)
        alg = int(rng.choice([1, 2]))
        P = dict(power_spectra_algorithm=alg, frequency_range=np.arange(0, 20, .5), number_of_coefficients_mem=20)
        comm = cr.commensurate_q(c, sc)
        q0 = comm[int(rng.integers(len(comm)))] if rng.integers(2) else rng.choice([.1, .2, .5, .3, 0], 3)
        with cr.quiet():
            lst = pl.get_equivalent_q_points_by_symmetry(q0, s)
            q = qp.make(d, **P)
            q.set_reduced_q_vector(q0)
            a = np.array(q.get_power_spectrum_phonon())
            b = np.array(q.get_power_spectrum_wave_vector())
            mon.same('vector_kept', q.get_reduced_q_vector(), np.array(q0))
            mon.same('average', q.get_power_spectrum_phonon(), a)
            pa, pb = [], []
            inside = [cr.is_commensurate(c, sc, x, 1e-4) for x in [q0] + list(lst)]
            used = [x for x, y in zip(lst, inside[1:]) if y or not inside[0]]
            for x in used:
                q = qp.make(d, use_symmetry=False, **P)
                q.set_reduced_q_vector(np.array(x))
                pa.append(np.array(q.get_power_spectrum_phonon()))
                pb.append(np.array(q.get_power_spectrum_wave_vector()))
        mon.close('average', a, np.mean(pa, axis=0), rtol=1e-9, info='%s x %s q %s, %d of %d points' % (name, sc, q0, len(used), len(lst)))
        mon.close('average', b, np.mean(pb, axis=0), rtol=1e-9, info='%s x %s q %s, %d of %d points' % (name, sc, q0, len(used), len(lst)))
        mon.count('averages_over_fewer_points', len(used) < len(lst))
        mon.nontrivial('average', name, alg, len(lst), len(used))
        return
    if kind == 'own':
        return own_results(name, c, rng, mon, cr, qp, pl)
    # stored data
    h = cr.Harmonic(c, c.spring_fc(sc, 4.6 if c.n > 1 else 4.8, rng), sc)
    t, x, v = h.trajectory(rng, 1500, .01, 100.)
    v = v + rng.normal(size=v.shape) * .5
    d = cr.to_dynamics(c, s, sc, velocity=v, disp=x, dt=.01)
    q = qp.make(d, power_spectra_algorithm=2, frequency_range=np.arange(0, h.freq.max() * 1.4, .1), mesh_phonopy=(3, 3, 3),
                use_MD_cell_commensurate=bool(rng.integers(2)))
    with cr.quiet():
        keep = np.array([.25, .1, 0])
        q.set_reduced_q_vector(keep)
        data = q.get_commensurate_points_data(auto_range=bool(rng.integers(2)))
        mon.same('vector_kept', q.get_reduced_q_vector(), keep)
    pts = [np.array(p) for p in data['q_points']]
    want = cr.commensurate_q(c, sc if q.parameters.use_MD_cell_commensurate else fsc)
    key = lambda p: tuple(np.round(np.mod(np.round(p, 7), 1) % 1, 5) % 1)
    mon.check('stored_equal', sorted(key(p) for p in pts) == sorted(key(p) for p in want), 'points %s, expected %s' % (pts, want))
    fr = np.array(data['frequencies'])
    lw = np.array(data['linewidths'])
    npr = int(c.types().max()) + 1
    n_eq = 0
    for i, p in enumerate(pts):
        ev = np.array(data['eigenvectors'][i]).reshape(3 * npr, -1)
        D = cr.dyn_matrix(c, fc, fsc, p)
        E = np.dot(ev.conj(), np.dot(D, ev.T))
        mon.close('stored_eigenvectors', E, np.diag(np.diag(E)), scale=np.abs(D).max(), rtol=1e-5, info='%s q %s' % (name, p))
        with cr.quiet():
            lst = pl.get_equivalent_q_points_by_symmetry(p, s)
        for j in range(i):
            if any((np.array(y) == pts[j]).all() for y in lst) and np.any(pts[j]):
                first = [k for k in range(i) if any((np.array(y) == pts[k]).all() for y in lst)]
                n_eq += 1
                mon.same('stored_equal', fr[i], fr[j], info='%s: %s and %s' % (name, p, pts[j]))
                mon.same('stored_equal', lw[i], lw[j], info='%s: %s and %s' % (name, p, pts[j]))
    mon.count('equivalent_pairs', n_eq)
    mon.nontrivial('stored', name, len(pts), n_eq)
    mon.observe(crystal=name, points=len(pts), equivalent_pairs=n_eq)


def own_results(name, c, rng, mon, cr, qp, pl):
    """Commensurate points share stored results only if they are equivalent; all others have those of their own analysis."""
    import dynaphopy.analysis.fitting as fitting
    while True:
        sc = [int(x) for x in rng.choice([1, 2, 3] if c.n < 5 else [1, 1, 2], 3)]
        if c.n * np.prod(sc) <= 36 and np.prod(sc) > 1:
            break
    kt = (-1.5, -.4) if rng.integers(3) == 0 else (.3, 1.2)       # negative transverse springs: unstable modes
    fc = c.spring_fc(sc, 4.6 if c.n > 1 else 4.8, rng, kt=kt)
    s = cr.to_structure(c, fc, sc)
    h = cr.Harmonic(c, c.spring_fc(sc, 4.4, rng), sc)
    t, x, v = h.trajectory(rng, 1200, .01, 100.)
    v = v + rng.normal(size=v.shape) * .5
    d = cr.to_dynamics(c, s, sc, velocity=v, disp=x, dt=.01)
    sym = bool(rng.integers(4))
    P = dict(power_spectra_algorithm=2, frequency_range=np.arange(0, h.freq.max() * 1.4, .1), mesh_phonopy=(3, 3, 3),
             use_MD_cell_commensurate=bool(rng.integers(2)), use_symmetry=sym,
             fitting_function=int(rng.choice([0, 0, 2])))
    with cr.quiet():
        data = qp.make(d, **P).get_commensurate_points_data(auto_range=False)
    pts = [np.array(p) for p in data['q_points']]
    fr, lw, sh = (np.array(data[k]) for k in ('frequencies', 'linewidths', 'frequency_shifts'))
    shared = own = 0
    for i, p in enumerate(pts):
        with cr.quiet():
            lst = [np.array(y) for y in pl.get_equivalent_q_points_by_symmetry(p, s)]
        w = cr.frequencies(cr.dyn_matrix(c, fc, sc, p))
        w0 = np.abs(cr.frequencies(cr.dyn_matrix(c, fc, sc, [.13, .21, .35]))).max()
        if any((y == pts[j]).all() for y in lst for j in range(i)) and sym:
            shared += 1
            continue
        own += 1
        with cr.quiet():
            q = qp.make(d, **P)
            q.set_reduced_q_vector(p)
            r = fitting.phonon_fitting_analysis(np.array(q.get_power_spectrum_phonon()), q.parameters.frequency_range,
                                                harmonic_frequencies=q.get_frequencies(), show_plots=False,
                                                fitting_function_type=P['fitting_function'], use_degeneracy=sym)
        pos, wid = np.array(r['positions'], float), np.array(r['widths'], float)
        if not p.any():
            pos[:3] = wid[:3] = 0
        info = '%s x %s q %s, symmetry %s' % (name, sc, p, sym)
        mon.close('stored_own', fr[i], pos, scale=1., rtol=1e-6, info=info)
        mon.close('stored_own', lw[i], wid, scale=1., rtol=1e-6, info=info)
        # small harmonic frequencies are square roots of rounding errors
        mon.close('stored_shift', sh[i], fr[i] - w, scale=max(w0, 1.), rtol=2e-3, info=info + ' harmonic %s' % w)
        mon.count('unstable_modes', int((w < -.1).sum()))
    mon.count('own_points', own)
    mon.count('shared_points', shared)
    mon.nontrivial('own', name, tuple(sc), sym)
    mon.observe(crystal=name, points=len(pts), own=own)
