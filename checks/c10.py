"""C10  Frequencies <-> force constants; generated harmonic trajectories."""
import numpy as np

RULE = ('random crystals with pair-spring force constants in supercells 1x1x1..3x1x2: force constants rebuilt from harmonic '
        'and from modified frequencies at all commensurate wave vectors, judged by an own dynamical matrix; generated '
        'trajectories judged by exact finite-difference identities of harmonic motion with the own supercell matrix; full '
        'analysis of generated trajectories. Non-trivial: a distinct (cell kind, centring, supercell, modification) '
        'combination')
ASSUMPTIONS = ['stable crystals (no imaginary modes) for the generated trajectories']
MONITORS = ['all_modes', 'rebuilt_fc', 'rebuilt_frequencies', 'modified_frequencies', 'sign_kept', 'symmetrized', 'equation_of_motion',
            'frames', 'recovered', 'gamma_zero', 'file_round_trip', 'fc_hermitian', 'skew_supercell', 'force_sets']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 250


def generate(tier, seed):
    k = 3 if tier == 'quick' else 20
    return ([{'kind': 'fc', 'seed': seed * 401 + i} for i in range(48 * k)] +
            [{'kind': 'traj', 'seed': seed * 409 + i} for i in range(24 * k)] +
            [{'kind': 'sym', 'seed': seed * 419 + i} for i in range(8 * k)] +
            [{'kind': 'recover', 'seed': seed * 421 + i} for i in range(10 * k)] +
            [{'kind': 'cell', 'seed': seed * 431 + i} for i in range(30 * k)])


SCS = [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 3], [2, 2, 1], [2, 2, 2], [3, 1, 2]]


def pick(rng, cr, maxat, **kw):
    while True:
        c = cr.random_crystal(rng, **kw)
        sc = SCS[int(rng.integers(len(SCS)))]
        if 2 <= c.n * np.prod(sc) <= maxat:
            return c, sc


def run_case(case, mon):
    from lib import crystal as cr, qp
    import dynaphopy.interface.phonopy_link as pl
    rng = np.random.default_rng(case['seed'])
    qp.reset_parameters()
    kind = case['kind']
    if kind == 'sym':
        name = ['nacl', 'diamond', 'zb', 'cscl', 'fcc', 'bcc', 'tetra', 'sc'][case['seed'] % 8]
        c = cr.named_crystal(name)
        sc = [[1, 1, 1], [2, 2, 2]][int(c.n <= 2)]
        fc = qp.springs(c, sc, rng)
        s = cr.to_structure(c, fc, sc)
        with cr.quiet():
            com = pl.get_commensurate_points(s, np.diag(sc))
            data = [pl.obtain_eigenvectors_and_frequencies(s, x) for x in com]
            a = pl.get_renormalized_force_constants(np.array([d[1] for d in data]), [d[0] for d in data], s, np.diag(sc),
                                                    symmetrize=True).get_array()
        order = super_order(s, sc, c)
        mon.close('symmetrized', a[np.ix_(order, order)], fc, rtol=2e-5, info=name)
        mon.nontrivial('sym', name)
        return
    if kind == 'cell':
        return skew(mon, rng, cr, qp, pl)
    kinds = ['cubic', 'ortho', 'hex', 'mono', 'tri', 'rot', 'left', 'skew']
    ck = kinds[case['seed'] % len(kinds)]
    c, sc = pick(rng, cr, 36 if kind != 'recover' else 8, cellkind=ck, outside=rng.integers(4) == 0)
    fc = qp.springs(c, sc, rng)
    if kind == 'traj' and rng.integers(3) == 0:        # a very soft crystal
        fc = fc * (float(rng.choice([.25, .6, 1.5])) / cr.Harmonic(c, fc, sc).freq.max()) ** 2
    custom = None
    if rng.random() < .25:
        custom = c.masses * 1.5
        c.masses = custom
    s = cr.to_structure(c, fc, sc, masses=custom)
    npr = int(c.types().max()) + 1
    nat = c.n * int(np.prod(sc))
    info = '%s %d atoms, sc %s' % (ck, c.n, sc)
    fsc = np.diag(sc)
    if kind == 'fc':
        with cr.quiet():
            com = pl.get_commensurate_points(s, fsc)
            data = [pl.obtain_eigenvectors_and_frequencies(s, x) for x in com]
        ncell = c.n * int(np.prod(sc)) // npr
        if not mon.check('rebuilt_fc', len(com) == ncell, '%d commensurate points, %d cells' % (len(com), ncell)):
            return
        fr = np.array([d[1] for d in data])
        ev = [d[0] for d in data]
        order = super_order(s, sc, c)
        modes = [('harmonic', lambda f: f), ('scaled', lambda f: 1.07 * f), ('soft', lambda f: f * (1 - .3 * f / (abs(f).max() + 1))),
                 ('imaginary', lambda f: np.where(f < .35 * fr.max(), -abs(f), f))]
        for name, g in [modes[0], modes[1 + int(rng.integers(3))]]:
            fr2 = g(fr)
            with cr.quiet():
                obj = pl.get_renormalized_force_constants(fr2 if rng.integers(2) else [list(x) for x in fr2], ev, s, fsc)
            a = np.array(obj.get_array())
            mon.same('rebuilt_fc', obj.get_supercell(), fsc)
            mine = a[np.ix_(order, order)]
            mon.close('fc_hermitian', mine, mine.transpose(1, 0, 3, 2), rtol=1e-6, info=info)
            if name == 'harmonic':
                mon.close('rebuilt_fc', mine, fc, rtol=2e-5, info=info)
                pl.save_force_constants_to_file(obj, 'FC')
                with cr.quiet():
                    b = pl.get_force_constants_from_file('FC', fsc)
                mon.close('file_round_trip', b.get_array(), a, atol=2e-10, rtol=1e-9)
            s2 = cr.to_structure(c, masses=custom)
            s2.set_force_constants(obj)
            for k, x in enumerate(com):
                w = cr.frequencies(cr.dyn_matrix(c, mine, sc, x))
                t = np.sort(fr2[k])
                m = 'rebuilt_frequencies' if name == 'harmonic' else \
                    'sign_kept' if name == 'imaginary' else 'modified_frequencies'
                # near zero the square root amplifies: compare squares
                mon.close(m, np.sign(w) * w ** 2, np.sign(t) * t ** 2, scale=(fr ** 2).max(), rtol=1e-4,
                          info=info + ' %s q %s' % (name, x))
                with cr.quiet():
                    f3 = np.sort(pl.obtain_eigenvectors_and_frequencies(s2, x)[1])
                mon.close(m, np.sign(f3) * f3 ** 2, np.sign(t) * t ** 2, scale=(fr ** 2).max(), rtol=1e-4,
                          info=info + ' %s q %s (through dynaphopy)' % (name, x))
            mon.nontrivial('fc', ck, c.n, tuple(sc), name)
        mon.observe(case=info, highest=float(fr.max()), points=len(com))
        return
    from dynaphopy.interface.iofile import generate_test_trajectory
    h = cr.Harmonic(c, fc, sc)
    if h.freq.min() < -1e-2:
        mon.count('unstable')
        return
    if kind == 'traj':
        dt = float(rng.choice([.0005, .001, .003])) * (30 if h.freq.max() < 2 else 1)
        nst = int(rng.integers(20, 90))
        fmin = float(rng.choice([.1, .1, .5 * h.freq.max()]))
        kw = dict(supercell=sc, minimum_frequency=fmin, total_time=(nst - .5) * dt, time_step=dt,
                  temperature=float(rng.choice([20, 400])), silent=True, memmap=bool(rng.integers(2)))
        if rng.integers(2):
            kw['phase_0'] = float(rng.uniform(0, 6))
        with cr.quiet():
            d = generate_test_trajectory(s, **kw)
            x = np.array(d.trajectory).real - c.super_positions(sc)
            t = np.array(d.get_time())
            X = np.array(d.trajectory)
        mon.close('frames', t, np.arange(nst) * dt, atol=1e-12, rtol=0)
        if not mon.check('frames', len(X) == len(t), '%d frames, %d times' % (len(X), len(t))):
            return
        mon.close('frames', d.get_supercell(), c.super_cell(sc), atol=1e-10)
        xm = x.reshape(len(x), -1) * np.repeat(np.sqrt(h.m), 3)
        if not mon.check('equation_of_motion', np.abs(xm).max() > 0, 'nothing moves'):
            return
        w = 2 * np.pi * np.abs(h.freq)
        C = np.dot(h.modes * (2 * np.cos(w * dt)), h.modes.T)
        mon.close('equation_of_motion', xm[2:] + xm[:-2], np.dot(xm[1:-1], C), scale=np.abs(xm).max(), rtol=3e-6, info=info)
        # every mode above the lowest frequency asked for takes part
        p = np.dot(xm, h.modes)
        left = np.argsort(h.freq)
        while len(left):
            shell = left[np.abs(h.freq[left] - h.freq[left[0]]) < 1e-3 * h.freq.max()]
            left = left[len(shell):]
            f = h.freq[shell]
            a = np.abs(p[:, shell]).max() * f.mean() * 2 * np.pi
            total = np.sqrt(3 * .831446 * kw['temperature'] / (nat / npr) * max(1, nat / npr / len(cr.commensurate_q(c, sc))))
            if f.min() > fmin * 1.01 and f.min() * nst * dt > .25:
                mon.check('all_modes', a > 1e-3 * total, 'modes at %s THz do not move (lowest frequency asked for %g, %s)' % (f, fmin, info))
            elif f.max() < fmin * .99:
                mon.check('all_modes', a < 1e-5 * total, 'modes at %s THz move (lowest frequency asked for %g, %s)' % (f, fmin, info))
        if 'phase_0' in kw:
            ref = kw.copy()
            ref.pop('phase_0')
            with cr.quiet():
                d0 = generate_test_trajectory(s, **ref)
                p0 = np.dot((np.array(d0.trajectory).real - c.super_positions(sc)).reshape(len(x), -1) * np.repeat(np.sqrt(h.m), 3), h.modes)
            ok = w * dt * (nst - 1) > 7
            if ok.any():
                a, b = amplitude(p[:, ok], w[ok], dt), amplitude(p0[:, ok], w[ok], dt)
                mon.check('frames', a.sum() < 6 * b.sum() + 1e-9 and b.sum() < 1e3 * a.sum() + 1e-9,
                          'initial phase changes the amplitudes: %g %g' % (a.sum(), b.sum()))
        mon.nontrivial('traj', ck, c.n, tuple(sc), fmin > .2)
        mon.observe(case=info, frames=len(x), amplitude=float(np.abs(x).max()))
        return
    # recover: full analysis
    dt = .25 / (h.freq.max() + 2) / 2
    dt = round(dt, 4)
    nst = 3000
    with cr.quiet():
        d = generate_test_trajectory(s, supercell=sc, total_time=(nst - .5) * dt, time_step=dt, temperature=20, silent=True)
    res = 2. / (nst * dt)
    q = qp.make(d, power_spectra_algorithm=2, use_symmetry=False, spectrum_resolution=res, use_MD_cell_commensurate=True,
                mesh_phonopy=(4, 4, 4), frequency_range=np.arange(0, h.freq.max() * 1.3, res))
    with cr.quiet():
        data = q.get_commensurate_points_data(auto_range=False)
        new = q.get_renormalized_force_constants()
    got = np.array(data['frequencies'])
    for k, x in enumerate(data['q_points']):
        w = cr.frequencies(cr.dyn_matrix(c, fc, sc, x))
        keep = np.abs(w) > max(.2, 6 * res)
        g = got[k]
        if not np.any(x):
            mon.close('gamma_zero', g[:3], np.zeros(3), atol=1e-12)
        with cr.quiet():
            q.set_reduced_q_vector(x)
            S = np.array(q.get_power_spectrum_phonon())
        top = q.get_frequency_range()[np.argmax(S, axis=0)]
        h_ = np.sqrt(S.max(axis=0))
        seen = h_ > 1e-3 * h_.max()
        # the generated motion may leave out a combination of degenerate modes
        for i in range(len(w)):
            seen[i] &= bool(h_[i] >= .5 * h_[np.abs(w - w[i]) < res].max())
        bad = (np.abs(g - w) > 1.5 * res) & keep & (g != 0) & seen
        mon.check('recovered', not bad.any(), 'q %s: %s instead of %s, resolution %.3g (%s)' % (x, g, w, res, info))
        bad = (np.abs(top - w) > 1.2 * res) & keep & seen
        mon.check('recovered', not bad.any(), 'q %s: maxima at %s instead of %s, resolution %.3g (%s)' % (x, top, w, res, info))
        mon.count('maxima', int((keep & seen).sum()))
        mon.count('fits', int(keep.sum()))
        mon.count('failed_fits', int(((g == 0) & keep).sum()))
    mon.nontrivial('recover', ck, c.n, tuple(sc))
    mon.observe(case=info, first=str(got[0]), resolution=res)


def skew(mon, rng, cr, qp, pl):
    """supercells of the force constants that are not multiples of the cell axes"""
    for _ in range(200):
        c = cr.random_crystal(rng, nprim=int(rng.integers(1, 3)))
        S = rng.integers(-1, 3, size=(3, 3)) if rng.integers(3) else np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]])[:, rng.permutation(3)]
        n = int(round(np.linalg.det(S)))
        big = cr.skew_supercell(c, S) if 1 <= n <= 8 and np.count_nonzero(S) > 3 and c.n * n <= 24 else None
        if big is None or np.linalg.det(c.cell) < 0:
            continue
        l = np.linalg.norm(big.cell, axis=1)
        h = 1 / np.linalg.norm(np.linalg.inv(big.cell), axis=0)
        if h.min() > 2 and (l / h).max() < 2.2:           # minimum images within reach
            break
    else:
        mon.count('no_cell')
        return
    one = [1, 1, 1]
    fc = qp.springs(big, one, rng)
    info = '%d atoms, matrix %s' % (c.n, S.tolist())
    npr = int(c.types().max()) + 1
    ncell = big.n // npr
    s = cr.to_structure(c)
    FC = pl.ForceConstants(fc.copy(), supercell=S.copy())
    s.set_force_constants(FC)
    mon.same('skew_supercell', s.get_supercell_phonon(), S)
    with cr.quiet():
        com = pl.get_commensurate_points(s, S)
    key = lambda q: tuple(np.round(np.mod(np.round(q, 7), 1), 5) % 1)
    want = {key(q) for q in cr.commensurate_q(big, one)}
    mon.check('skew_supercell', len(com) == ncell and {key(q) for q in com} == want, '%d points instead of %d (%s)' % (len(com), ncell, info))
    with cr.quiet():
        data = [pl.obtain_eigenvectors_and_frequencies(s, x) for x in com]
    fr = np.array([d[1] for d in data])
    sq = lambda f: np.sign(f) * f ** 2
    scale = (fr ** 2).max()
    for k, x in enumerate(com):
        mon.close('skew_supercell', sq(np.sort(fr[k])), sq(np.sort(cr.frequencies(cr.dyn_matrix(big, fc, one, x)))), scale=scale, rtol=1e-4,
                  info='%s q %s' % (info, x))
    low = rng.integers(2)
    fr2 = fr * (1 + .1 * fr / np.abs(fr).max()) if low else fr
    with cr.quiet():
        a = np.array(pl.get_renormalized_force_constants(fr2, [d[0] for d in data], s, S).get_array())
    if not low:
        mon.close('skew_supercell', a, fc, rtol=2e-5, info=info)
    for k, x in enumerate(com):
        mon.close('skew_supercell', sq(np.sort(cr.frequencies(cr.dyn_matrix(big, a, one, x)))), sq(np.sort(fr2[k])), scale=scale, rtol=1e-4,
                  info='%s q %s' % (info, x))
    # the same crystal, known by forces on displaced atoms
    first = [list(big.types()).index(t) for t in range(npr)]
    sets = []
    for i in first:
        for e in np.eye(3):
            for u in ([.01 * e, -.01 * e] if rng.integers(2) else [.01 * e]):
                sets.append({'number': i, 'displacement': u.copy(), 'forces': -np.einsum('jab,b->ja', fc[:, i], u)})
    s2 = cr.to_structure(c)
    s2.set_force_set(pl.ForceSets({'natom': big.n, 'first_atoms': sets}, supercell=S.copy()))
    if big.n < 13 or rng.integers(2):
        try:
            with cr.quiet():
                got = [np.sort(pl.obtain_eigenvectors_and_frequencies(s2, x)[1]) for x in com]
                back = s2.get_force_constants()
        except SystemExit:
            mon.check('force_sets', False, 'refused although the forces are those of the %d atoms of the supercell (%s)' % (big.n, info))
            return
        for k, x in enumerate(com):
            mon.close('force_sets', sq(got[k]), sq(np.sort(fr[k])), scale=scale, rtol=1e-3, info='%s q %s' % (info, x))
        mon.same('force_sets', back.get_supercell(), S)
        # a supercell the forces do not belong to
        s3 = cr.to_structure(c)
        s3.set_force_set(pl.ForceSets({'natom': big.n, 'first_atoms': sets}, supercell=np.diag([ncell + 1, 1, 1])))
        try:
            with cr.quiet():
                s3.get_force_sets()
            ok = big.n == c.n * (ncell + 1)
        except SystemExit:
            ok = big.n != c.n * (ncell + 1)
        mon.check('force_sets', ok, 'forces on %d atoms taken for a supercell %d x 1 x 1' % (big.n, ncell + 1))
    # analysis of motion in an MD cell of unit cells, renormalized on this supercell or on the MD cell
    md = [int(x) for x in rng.integers(1, 3, 3)]
    if c.n * np.prod(md) <= 24:
        own = bool(rng.integers(3) == 0)
        n = 400
        v = rng.normal(size=(n, c.n * int(np.prod(md)), 3))
        d = cr.to_dynamics(c, s, md, velocity=v, disp=v * 0, dt=.02)
        top = float(np.abs(fr).max()) * 1.3 + 1
        q = qp.make(d, power_spectra_algorithm=2, use_MD_cell_commensurate=own, use_symmetry=bool(rng.integers(2)), symmetrize=False,
                    frequency_range=np.linspace(0, top, 120))
        with cr.quiet():
            st = q.get_commensurate_points_data(auto_range=False)
            r = q.get_renormalized_force_constants()
            more = q.get_commensurate_points_properties() if np.isfinite(np.array(r.get_array())).all() else None
        home, S_, kk = (big, S, one) if not own else (c, np.diag(md), md)
        mon.same('skew_supercell', np.array(st['fc_supercell']), S_)
        mon.same('skew_supercell', np.array(r.get_supercell()), S_)
        mon.check('skew_supercell', {key(p) for p in st['q_points']} == {key(p) for p in cr.commensurate_q(home, kk)} and len(st['q_points']) == home.n * np.prod(kk) // npr,
                  'stored points %s (%s, MD %s, own %s)' % (len(st['q_points']), info, md, own))
        if more is not None:            # group velocities: of the same wave vectors
            mon.same('skew_supercell', np.array(more['fc_supercell']), S_)
            mon.close('skew_supercell', np.array(more['q_points']), np.array(st['q_points']), atol=1e-12, info=info)
            mon.check('skew_supercell', np.array(more['group_velocity']).shape == np.array(st['frequencies']).shape + (3,), 'group velocities %s' % info)
        a = np.array(r.get_array())
        if own:
            po = super_order(s, md, c)
            a = a[np.ix_(po, po)]
        f2 = np.array(st['frequencies'])
        # a point and its inverse have independent fits: only their mean can be rebuilt
        eq = {key(p): f for p, f in zip(st['q_points'], f2)}
        if np.abs(f2).max() > .1:
            for p, f in eq.items():
                g = eq.get(key(-np.array(p)))
                w = np.sort(cr.frequencies(cr.dyn_matrix(big, fc, one, p)))
                # degenerate modes with two results: which combination of them has which one is open
                if g is None or not np.array_equal(sq(f), sq(g)) or (np.any(p) and np.diff(sq(w)).min(initial=1e9) < 1e-4 * scale):
                    mon.count('not_paired')
                    continue
                mon.close('skew_supercell', sq(np.sort(cr.frequencies(cr.dyn_matrix(home, a, kk, p)))), sq(np.sort(f)), scale=(f2 ** 2).max(), rtol=1e-4,
                          info='%s MD %s own %s q %s' % (info, md, own, p))
        mon.count('analyses')
    mon.nontrivial('cell', S.tolist(), c.n, bool(low))
    mon.observe(case=info, points=len(com))


def amplitude(p, w, dt):
    """sqrt of the time-averaged energy-like amplitude of each mode"""
    c = np.cos(w * dt)
    s = np.sin(w * dt)
    v = (p[2:] - p[:-2]) / (2 * s + 1e-300)
    return np.sqrt(p[1:-1] ** 2 + v ** 2).mean(axis=0)


def super_order(s, sc, c):
    """index into phonopy's supercell of each atom of our supercell ordering"""
    from phonopy.structure.atoms import PhonopyAtoms
    from phonopy.structure.cells import get_supercell
    b = PhonopyAtoms(symbols=c.elements, scaled_positions=c.scaled, cell=c.cell)
    sup = get_supercell(b, np.diag(sc))
    pos = c.super_positions(sc)
    inv = np.linalg.inv(c.super_cell(sc))
    out = []
    for p in pos:
        d = np.dot(sup.positions - p, inv)
        d -= np.round(d)
        r = np.linalg.norm(np.dot(d, c.super_cell(sc)), axis=1)
        out.append(int(np.argmin(r)))
        assert r.min() < 1e-3
    return np.array(out)
