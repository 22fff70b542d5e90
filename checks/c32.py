"""C32  The quasiparticle analysis gives back the frequencies, line widths and force constants of the motion."""
import numpy as np

RULE = ('decaying travelling waves (one per commensurate wave vector and branch, known frequency and life time) on random and named crystals (1 or 2 atoms per primitive '
        'cell, supercells of 1 to 4 cells, also less symmetric than the crystal), the force constants of the motion being a random function of the reference '
        'dynamical matrix: complete analyses with every smooth spectrum engine and line shape, with and without symmetry, against the frequencies and widths put in. '
        'Non-trivial: a distinct (crystal, supercell, settings) combination')
ASSUMPTIONS = ['the reference force constants have the eigenvectors of the motion', 'modes closer to zero than 4.5 line widths are not judged',
               'the asymmetric fit may end elsewhere for one mode in thirty',
               'a fit which is off counts when it is off in three motions of the same modes with other phases']
MONITORS = ['fitted', 'frequency', 'shift', 'unstable', 'linewidth', 'mean_linewidth', 'acoustic', 'force_constants', 'settings_restored']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 400


def generate(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'kind': 'recover', 'seed': seed * 3203 + i} for i in range(480 * k)]


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, qp
    from checks.c10 import super_order
    from dynaphopy.dynamics import Dynamics
    rng = np.random.default_rng(case['seed'])
    while True:
        if rng.integers(2):
            c = cr.random_crystal(rng, nprim=int(rng.integers(1, 3)), outside=rng.integers(5) == 0)
        else:
            c = cr.named_crystal(str(rng.choice(cr.NAMED)))
        sc = [int(x) for x in rng.permutation([[1, 1, 2], [1, 2, 2], [1, 1, 3], [1, 1, 4], [1, 1, 1]][int(rng.integers(5))])]
        n = int(c.n * np.prod(sc))
        if not 2 <= n <= 16:
            continue
        fc = qp.springs(c, sc, rng)
        h = cr.Harmonic(c, fc, sc)
        top = h.freq.max()
        if np.sort(h.freq)[3] > max(.12 * top, .8):
            break
    # force constants of the motion: a function of the dynamical matrix, so that modes and symmetry are the same
    a, b = rng.uniform(.88, 1.12), rng.uniform(-.12, .12)
    lam = np.linalg.eigvalsh(h.D).max()
    D = np.dot(h.D, a * np.eye(3 * n) + b * h.D / lam)
    sm = np.sqrt(np.repeat(h.m, 3))
    fc_md = (D * sm[:, None] * sm[None]).reshape(n, 3, n, 3).transpose(0, 2, 1, 3)
    shifted = lambda f: f * np.sqrt(np.maximum(a + b * f ** 2 / top ** 2, 0))
    m = cr.Harmonic(c, fc_md, sc)
    # reference crystals which are unstable: all squared frequencies lowered by the same amount, some below zero
    fc_ref, down = fc, 0.
    if rng.integers(4) == 0:
        down = float((np.sort(h.freq)[3] * rng.uniform(1.05, 1.4)) ** 2)
        if down < .3 * top ** 2:
            low = lam * down / top ** 2
            fc_ref = fc.copy()
            for i in range(n):
                fc_ref[i, i] -= low * h.m[i] * np.eye(3)
        else:
            down = 0.
    lowered = lambda f: np.sign(f ** 2 - down) * np.sqrt(np.abs(f ** 2 - down))
    res = float(rng.choice([.05, .08, .1]))
    T = float(rng.uniform(40, 60))
    dt = float(np.round(1 / (rng.uniform(3.2, 5) * m.freq.max()), 4))
    steps = int(T / dt)
    w0, w1 = rng.uniform(.22, .4), rng.uniform(-.05, .3)
    width = lambda f: w0 + w1 * f / top            # of the shifted frequencies
    # one decaying travelling wave per wave vector and branch
    t = np.arange(steps) * dt
    types, pos = c.super_types(sc), c.super_positions(sc)
    points = cr.commensurate_q(c, sc)
    st = cr.to_structure(c, fc_ref, sc)
    wrap = rng.integers(-1, 2, size=(1, n, 3)) if rng.integers(2) else None
    algorithm = int(rng.choice([1, 2, 2, 3]))
    p = dict(use_symmetry=bool(rng.integers(2)), use_MD_cell_commensurate=bool(rng.integers(2)), symmetrize=bool(rng.integers(4) == 0),
             fitting_function=int(rng.choice([0, 0, 2] if algorithm == 1 else [0, 0, 1, 2])), power_spectra_algorithm=algorithm, spectrum_resolution=res,
             number_of_coefficients_mem=int(rng.choice([60, 150])), mesh_phonopy=(4, 4, 4), frequency_range=np.arange(0, rng.uniform(3, 30), res))
    info = '%s sc %s, %d steps of %g ps, resolution %g, width %.2g+%.2g, factors %.3g %.3g, lowered by %.3g, %s' % (c.elements, sc, steps, dt, res, w0, w1, a, b, down, {
        k: p[k] for k in p if np.size(p[k]) == 1})

    def attempt(number, last):
        """The fits of one motion in some thousand end elsewhere: what depends on them is judged on three motions of the same modes."""
        bad = []

        def judge(name, ok, text):
            if last or ok:
                mon.check(name, ok, text)
            else:
                bad.append(name)

        rng2 = np.random.default_rng([case['seed'], number])
        x, v = np.zeros((steps, 3 * n)), np.zeros((steps, 3 * n))
        for qv in points:
            w, e = np.linalg.eigh(cr.dyn_matrix(c, fc, sc, qv))
            fs = shifted(np.sqrt(np.abs(w)) * top / np.sqrt(lam))
            plane = np.exp(1j * np.dot(pos, cr.cart_q(c, qv))) / np.sqrt(h.m * len(points))
            for k in np.where(fs > .3)[0]:
                z = 1j * 2 * np.pi * fs[k] - np.pi * width(fs[k])
                ring = 3 * rng2.uniform(.8, 1.2) * np.exp(2j * np.pi * rng2.random() + z * t) * (1 + 1e-4 * rng2.normal(size=steps))
                shape = (e[:, k].reshape(-1, 3)[types] * plane[:, None]).ravel()
                v += np.outer(ring, shape).real
                x += np.outer(ring / z, shape).real
        x, v = x.reshape(steps, n, 3), v.reshape(steps, n, 3)
        d = cr.to_dynamics(c, st, sc, disp=x, velocity=v, dt=dt, wrap=wrap)
        with cr.quiet():
            q = qp.make(d, **p)
            before = (np.array(q.get_frequency_range()), np.array(q.get_reduced_q_vector()))
            data = q.get_commensurate_points_data()
            K = np.array(q.get_renormalized_force_constants().get_array())
        mon.same('settings_restored', np.array(q.get_frequency_range()), before[0], info=info)
        mon.same('settings_restored', np.array(q.get_reduced_q_vector(), float), before[1].astype(float), info=info)
        F, W, S = (np.array(data[k], float) for k in ('frequencies', 'linewidths', 'frequency_shifts'))
        worst, ratios, gap, missing = 0., [], 0., []
        sharp = algorithm != 1                  # Fourier transforms of these signals are exact, maximum entropy is not
        low, high, mlow, mhigh = (.6, 1.6, .85, 1.18) if sharp else (.2, 2.5, .55, 1.5)
        for iq, qv in enumerate(data['q_points']):
            ref = cr.frequencies(cr.dyn_matrix(c, fc, sc, qv))
            gamma = np.abs(qv).max() < 1e-9
            if gamma:
                mon.check('acoustic', np.all(F[iq, :3] == 0) and np.all(W[iq, :3] == 0), 'frequencies %s, widths %s %s' % (F[iq, :3], W[iq, :3], info))
            for j in range(3 if gamma else 0, len(ref)):
                want = float(shifted(ref[j]))
                wd = float(width(want))
                gap = max(gap, abs(F[iq, j] ** 2 - want ** 2))
                if F[iq, j] == 0:
                    missing.append((j, list(qv), want))
                    continue
                if want < 4.5 * wd:                              # cut by the edge of the spectrum
                    continue
                err = (1 if sharp else 2) * (1.5 if p['fitting_function'] == 2 else 1) * (1 + (4 * wd / want) ** 2) * (res + .4 * wd) / 2
                z = abs(F[iq, j] - want) / err
                worst = max(worst, z)
                if z > 1 and p['fitting_function'] == 1:         # the asymmetric fit now and then ends elsewhere
                    missing.append((j, list(qv), want))
                    continue
                judge('frequency', z < 1, 'mode %d at %s: %g instead of %g (allowed %g) %s' % (j, qv, F[iq, j], want, err, info))
                judge('shift', abs(S[iq, j] - (want - float(lowered(ref[j])))) < err,
                          'mode %d at %s: shift %g instead of %g %s' % (j, qv, S[iq, j], want - float(lowered(ref[j])), info))
                if lowered(ref[j]) < -.3:
                    mon.seen('unstable')
                ratios.append(W[iq, j] / wd)
                judge('linewidth', low < W[iq, j] / wd < high * (2.5 if p['fitting_function'] == 1 else 1), 'mode %d at %s: width %g instead of %g %s' % (j, qv, W[iq, j], wd, info))
        judge('fitted', len(missing) <= 1 + .03 * F.size, 'no peaks for %s %s' % (missing, info))
        if len(ratios) > 5:
            judge('mean_linewidth', mlow < np.median(ratios) < mhigh, 'median of width over expected width %g of %d modes %s' % (np.median(ratios), len(ratios), info))
        # the renormalised force constants: same modes, at the frequencies found
        order = super_order(st, sc, c)
        root = np.sqrt(np.repeat(h.m, 3))
        R = K[np.ix_(order, order)].transpose(0, 2, 1, 3).reshape(3 * n, 3 * n) / root[:, None] / root[None]
        unit = top ** 2 / lam
        off = np.abs(np.linalg.eigvalsh(((R - D) + (R - D).T) / 2)).max() * unit
        mon.check('force_constants', np.abs(R - R.T).max() * unit < 1e-3 * top ** 2 and off < (3 if p['symmetrize'] else 1.001) * gap + 2e-3 * top ** 2,
                  'renormalised dynamical matrix off by %g THz^2, frequencies by %g THz^2 %s' % (off, gap, info))
        mon.observe(info=info, worst=worst, ratio=float(np.median(ratios or [1])), low=float(np.min(ratios or [1])), high=float(np.max(ratios or [1])), nr=len(ratios), fcoff=float(off / gap))
        mon.nontrivial(info)
        return bad

    for number in range(3):
        if not attempt(number, number == 2):
            break
        mon.count('other_motions')
