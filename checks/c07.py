"""C07  Spectral area = kinetic energy; kinetic temperature; absolute units."""
import numpy as np

RULE = ('random crystals (several species, centrings, supercells) with exact harmonic motion or coloured random velocities; '
        'full spectra of all four CPU algorithms against (a) an own implementation of each spectrum summed over '
        'sqrt(mass) x velocity in eV ps and (b) the area against the mean kinetic energy; temperature against 2<K>/3NkB; '
        'density of states from the spectrum. Non-trivial: a distinct (algorithm, crystal kind, species count, silent) '
        'combination with non-zero kinetic energy')
ASSUMPTIONS = ['area comparisons are made only where time step, number of steps and frequency grid resolve the signal '
               '(signal below a tenth of the Nyquist frequency, grid finer than the line width of the estimator)']
MONITORS = ['spectrum_value', 'area', 'temperature', 'dos', 'dos_norm', 'printed_area', 'partials_area']
MIN_NONTRIVIAL = 20
CPU_LIMIT = 240


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return ([{'kind': 'area', 'seed': seed * 101 + i} for i in range(32 * k)] +
            [{'kind': 'temp', 'seed': seed * 103 + i} for i in range(24 * k)])


def colored(rng, n, nat, dt, fmax):
    """band-limited velocities made of many sinusoids under fmax."""
    t = np.arange(n) * dt
    v = np.zeros((n, nat, 3))
    for a in range(nat):
        for c in range(3):
            for _ in range(3):
                v[:, a, c] += rng.normal() * 5 * np.cos(2 * np.pi * rng.uniform(.15, 1) * fmax * t + rng.uniform(0, 7))
    return v


def run_case(case, mon):
    from lib import crystal as cr, spectra as sp, qp
    from dynaphopy.analysis import thermal_properties as thm
    rng = np.random.default_rng(case['seed'])
    c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
    sc = [int(x) for x in rng.permutation([1, 1, 2])]
    masses = c.super_masses(sc)
    nat = len(masses)
    if case['kind'] == 'temp':
        T = float(rng.choice([3., 80., 300., 1500.]))
        n = int(rng.integers(40, 300))
        custom = None
        if rng.random() < .4:
            custom = c.masses * np.where(rng.random() < .5, 1, 1.3)
            masses = np.repeat(custom, int(np.prod(sc)))
        v = qp.maxwell_velocity(rng, masses, n, T)
        if rng.random() < .4:
            # not Maxwellian: two temperatures, one atom frozen
            v[:, 0] *= 0
            v[n // 2:] *= 1.7
        s = cr.to_structure(c, masses=custom)
        d = cr.to_dynamics(c, s, sc, velocity=v, disp=np.zeros_like(v))
        with cr.quiet():
            q = qp.make(d)
            got = q.get_temperature()
            again = q.get_temperature()
            q.parameters.silent = False
            q2 = qp.make(d, silent=bool(rng.integers(2)))
            third = q2.get_temperature()
        K = qp.kinetic(masses, v)
        want = 2 * K / (3 * nat * cr.KB_EV)
        mon.close('temperature', got, want, rtol=2e-4, info='%d atoms %d steps' % (nat, n))
        mon.same('temperature', again, got)
        mon.same('temperature', third, got)
        mon.nontrivial('temp', round(np.log(want)), nat > 8, custom is not None)
        mon.observe(temperature=got, kinetic=want)
        return
    alg = case['seed'] % 4
    dt = float(rng.choice([.0005, .001, .002]))
    fmax = (0.02 if alg == 0 else 0.05) / dt
    n = int(rng.integers(1200, 1800))
    while nat > 24:
        c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
        sc = [1, 1, 2]
        masses = c.super_masses(sc)
        nat = len(masses)
    if alg == 0:
        n = int(rng.integers(400, 600))
        while nat > 6:
            c = cr.random_crystal(rng, centring='P')
            sc = [int(x) for x in rng.permutation([1, 1, 2])]
            masses = c.super_masses(sc)
            nat = len(masses)
    v = colored(rng, n, nat, dt, fmax)
    s = cr.to_structure(c)
    d = cr.to_dynamics(c, s, sc, velocity=v, disp=np.zeros_like(v), dt=dt)
    T = n * dt
    P = {}
    if alg == 1:
        v += rng.normal(size=v.shape) * 4       # lines of finite width, resolved by the grid
        d = cr.to_dynamics(c, s, sc, velocity=v, disp=np.zeros_like(v), dt=dt)
        m = int(rng.integers(6, 17))
        P['number_of_coefficients_mem'] = m
        lo, hi, res = 0., .5 / dt, .5 / dt / 6000
    elif alg == 0:
        step = int(rng.choice([1, 2]))
        meth = int(rng.integers(2))
        P['correlation_function_step'] = step
        P['integration_method'] = meth
        lo, hi, res = 0., 1.5 * fmax, .2 / T
    else:
        lo, hi, res = 0., .5 / dt, 1.0 / T * float(rng.choice([1.01, 2.3]))
    fr = np.arange(lo, hi + res, res)
    silent = bool(rng.integers(2))
    q = qp.make(d, power_spectra_algorithm=alg, frequency_range=fr, spectrum_resolution=res, **P)
    q.parameters.silent = silent
    with cr.quiet() as out:
        S = np.asarray(q.get_power_spectrum_full())
        q.write_power_spectrum_full('full.dat')
    x = v * np.sqrt(masses)[None, :, None]
    info = 'algorithm %d, %d atoms, dt %g, n %d, silent %s' % (alg, nat, dt, n, silent)
    # own spectrum at some frequencies
    pick = np.unique(np.linspace(0, len(fr) - 1, 60).astype(int))
    if alg == 2 or alg == 3:
        best = None
        for nu in (0., 1e-7, -1e-7):
            w = sum(sp.fft_reference(fr, x[:, a, k], dt, nu) for a in range(nat) for k in range(3)) * cr.KIN_EV
            if S.shape != w.shape:
                best = w
                break
            if best is None or np.abs(S - w).max() < np.abs(S - best).max():
                best = w
        mon.close('spectrum_value', S, best, rtol=5e-5, info=info)
    elif alg == 1:
        ok = True
        w = 0
        for a in range(nat):
            for k in range(3):
                r, o = sp.mem_reference(fr[pick], x[:, a, k], dt, m)
                w = w + r
                ok = ok and o
        if ok:
            mon.close('spectrum_value', S[pick], w * cr.KIN_EV, rtol=1e-4, info=info)
    else:
        w = sum(sp.direct_reference(fr[pick], x[:, a, k], dt, step, meth) for a in range(nat) for k in range(3))
        mon.close('spectrum_value', S[pick], w * cr.KIN_EV / (n // step), rtol=1e-4, info=info)
    K = qp.kinetic(masses, v)
    area = float(np.trapezoid(S, x=fr))
    tol = {0: .22, 1: .03, 2: .9, 3: .9}[alg]
    if alg < 2:
        mon.close('area', area, K, rtol=tol, info=info)
    else:       # magnitudes: never below, side lobes of sharp lines add to it
        mon.check('area', .96 * K < area < 1.9 * K, 'area %g, mean kinetic energy %g, %s' % (area, K, info))
    printed = [float(l.split(':')[1].split()[0]) for l in out.getvalue().splitlines() if 'Total Area' in l]
    if mon.check('printed_area', len(printed) == 1, 'area lines: %s' % printed):
        mon.close('printed_area', printed[0], area, rtol=.1)
    # partial spectra: each atom has its own kinetic energy
    if nat * len(fr) < 3e5:
        with cr.quiet():
            part = np.asarray(q.get_power_spectrum_partials())
        Ka = [qp.kinetic(masses[i:i + 1], v[:, i:i + 1]) for i in range(nat)]
        pa = np.trapezoid(part, x=fr, axis=0)
        if alg < 2:
            mon.close('partials_area', pa, Ka, rtol=1.2 * tol, info=info)
        else:
            mon.check('partials_area', len(pa) == nat and ((pa > .9 * np.array(Ka)) & (pa < 4 * np.array(Ka))).all(), 'areas %s, kinetic energies %s, %s' % (pa, Ka, info))
            i = int(rng.integers(nat))
            own = [sum(sp.fft_reference(fr, x[:, i, k], dt, nu) for k in range(3)) * cr.KIN_EV for nu in (0., 1e-7, -1e-7)]
            own = min(own, key=lambda w: np.abs(part[:, i] - w).max())
            mon.close('spectrum_value', part[:, i], own, rtol=5e-5, info='atom %d ' % i + info)
    # density of states in absolute units: 3 per atom of the unit cell in total
    temp = 2 * K / (3 * nat * cr.KB_EV)
    ncell = int(np.prod(sc))
    with cr.quiet():
        dos = np.asarray(thm.get_dos(temp, fr, S, ncell))
    mon.close('dos', dos, S * 2 / (cr.KB_EV * temp * ncell), rtol=2e-5, info=info)
    mon.close('dos_norm', np.trapezoid(dos, x=fr), 3. * c.n, rtol=tol, info=info)
    mon.nontrivial(alg, silent, len(set(c.elements)), nat > 8)
    mon.observe(algorithm=alg, area=area, kinetic=K, ratio=area / K)
