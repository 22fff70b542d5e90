"""C09  Partial spectra add up; output options never change the numbers."""
import numpy as np

RULE = ('random crystals and velocities, all four CPU algorithms: full / per type / per coordinate / per atom / wave vector / '
        'phonon spectra against sums of single-signal spectra; the same queries with silent on and off, with plots, with '
        'files, in either order; saved curves against returned numbers. Non-trivial: a distinct (algorithm, silent, number '
        'of sites, query order) combination')
ASSUMPTIONS = ['single-signal spectra themselves are judged by C04-C06']
MONITORS = ['types_sum', 'coordinates_sum', 'atoms_sum', 'full_sum', 'wave_vector_sum', 'phonon_columns', 'silent', 'plots',
            'saved_curve', 'partials_file']
MIN_NONTRIVIAL = 16
CPU_LIMIT = 200


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return [{'kind': 'sum', 'seed': seed * 307 + i} for i in range(40 * k)]


def curve_ok(mon, name, fname, fr, cols, info):
    a = np.loadtxt(fname)
    cols = np.asarray(cols)
    if cols.ndim == 1:
        cols = cols[:, None]
    if a.ndim == 1:
        a = a[None]
    if not mon.check(name, a.shape == (len(fr), 1 + cols.shape[1]), '%s has shape %s %s' % (fname, a.shape, info)):
        return
    mon.close(name, a[:, 0], fr, atol=6e-5, rtol=0, info=info + ' abscissa')
    mon.close(name, a[:, 1:], cols, rtol=1e-8, atol=1e-30, info=info)


def run_case(case, mon):
    from lib import crystal as cr, qp
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: plt.close('all')
    rng = np.random.default_rng(case['seed'])
    alg = case['seed'] % 4
    while True:
        c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
        sc = [int(x) for x in rng.permutation([1, 1, int(rng.integers(1, 3))])]
        masses = c.super_masses(sc)
        nat = len(masses)
        if 2 <= nat <= (4 if alg == 0 else 12):
            break
    fc = qp.springs(c, sc, rng)
    s = cr.to_structure(c, fc, sc)
    npr = int(c.types().max()) + 1
    n = int(rng.integers(150, 400))
    dt = .002
    v = rng.normal(size=(n, nat, 3)).cumsum(axis=0) * .3 + rng.normal(size=(n, nat, 3))
    d = cr.to_dynamics(c, s, sc, velocity=v, disp=np.zeros_like(v), dt=dt)
    fr = [np.arange(0, 30, .9), np.arange(0, 25), np.linspace(.5, 40, 57)][int(rng.integers(3))]
    P = dict(frequency_range=fr, power_spectra_algorithm=alg, number_of_coefficients_mem=int(rng.integers(5, 60)),
             correlation_function_step=int(rng.choice([1, 4, 10])), integration_method=int(rng.integers(2)),
             use_symmetry=False, mesh_phonopy=(3, 3, 3))
    types = c.super_types(sc)
    x = v * np.sqrt(masses)[None, :, None]
    info = 'algorithm %d, %d atoms, %d sites' % (alg, nat, npr)
    q = qp.make(d, **P)

    def single(sig):
        """spectrum of one signal alone"""
        q.parameters.silent = True
        return np.asarray(psf[alg][0](np.ascontiguousarray(np.asarray(sig, complex)[:, None]), d, q.parameters))[:, 0]

    with cr.quiet():
        el = np.array([[single(x[:, a, k]) for k in range(3)] for a in range(nat)])     # (atom, coord, f)
    tol = dict(rtol=1e-9, scale=el.sum(axis=(0, 1)).max())
    for silent in ([True, False] if rng.integers(2) else [False, True]):
        q = qp.make(d, **P)
        q.parameters.silent = silent
        with cr.quiet():
            first = int(rng.integers(2))
            if first:
                part = np.array(q.get_power_spectrum_partials(save_to_file='partials.dat'))
                full = np.array(q.get_power_spectrum_full())
            else:
                full = np.array(q.get_power_spectrum_full())
                part = np.array(q.get_power_spectrum_partials())
                part2 = np.array(q.get_power_spectrum_partials(save_to_file='partials.dat'))
                mon.same('partials_file', part2, part)
            mon.close('full_sum', full, el.sum(axis=(0, 1)), info=info, **tol)
            mon.close('atoms_sum', part, el.sum(axis=1).T, info=info, **tol)
            curve_ok(mon, 'partials_file', 'partials.dat', fr, part, info)
            q.write_power_spectrum_full('full.dat')
            curve_ok(mon, 'saved_curve', 'full.dat', fr, full, info)
            mon.same('saved_curve', q.get_power_spectrum_full(), full)
        acc = 0
        for t in range(npr):
            q = qp.make(d, **P)
            q.parameters.silent = silent
            with cr.quiet():
                q.set_projection_onto_atom_type(t)
                ft = np.array(q.get_power_spectrum_full())
                mon.close('types_sum', ft, el[types == t].sum(axis=(0, 1)), info=info, **tol)
                acc = acc + ft
                cs = [np.array(q.get_power_spectrum_full(projection_on_coordinate=k)) for k in range(3)]
                for k in range(3):
                    mon.close('coordinates_sum', cs[k], el[types == t][:, k].sum(axis=0), info=info, **tol)
                mon.close('coordinates_sum', sum(cs), ft, info=info, **tol)
                mon.same('coordinates_sum', q.get_power_spectrum_full(), ft)
        mon.close('types_sum', acc, full, info=info, **tol)
        mon.nontrivial(alg, silent, npr, first)
    # wave vector and phonon modes
    comm = cr.commensurate_q(c, sc)
    qr = comm[int(rng.integers(len(comm)))] if rng.integers(3) else rng.uniform(0, .5, 3)
    res = {}
    for silent in (True, False):
        q = qp.make(d, **P)
        q.parameters.silent = silent
        with cr.quiet():
            q.set_reduced_q_vector(qr)
            vc = np.array(q.get_vc()).reshape(n, -1)
            vq = np.array(q.get_vq())
            order = int(rng.integers(3))
            if order == 1:
                q.plot_power_spectrum_phonon()
                q.plot_power_spectrum_wave_vector()
                q.plot_power_spectrum_full()
                q.plot_vq([0])
                q.plot_vc([0], [0])
            wv = np.array(q.get_power_spectrum_wave_vector())
            ph = np.array(q.get_power_spectrum_phonon())
            q.write_power_spectrum_wave_vector('wv.dat')
            q.write_power_spectrum_phonon('ph.dat')
            curve_ok(mon, 'saved_curve', 'wv.dat', fr, wv, info)
            curve_ok(mon, 'saved_curve', 'ph.dat', fr, ph, info)
            if order == 2:
                q.plot_power_spectrum_phonon()
                q.plot_power_spectrum_full()
                mon.close('plots', q.get_power_spectrum_full(), full, rtol=1e-9)
                q.plot_power_spectrum_wave_vector()
            mon.same('plots', q.get_power_spectrum_phonon(), ph)
            mon.same('plots', q.get_power_spectrum_wave_vector(), wv)
            w1 = np.array([single(vc[:, k]) for k in range(vc.shape[1])])
            p1 = np.array([single(vq[:, k]) for k in range(vq.shape[1])])
        res[silent] = (wv, ph)
        mon.close('wave_vector_sum', wv, w1.sum(axis=0), rtol=1e-9, info=info)
        mon.close('phonon_columns', ph, p1.T, rtol=1e-9, info=info)
    mon.same('silent', res[True][0], res[False][0])
    mon.same('silent', res[True][1], res[False][1])
    mon.observe(case=info, full=float(full.sum()), parts=float(acc.sum()), frequency_points=len(fr))
