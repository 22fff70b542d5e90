"""C18  Saved velocity/trajectory files restore the data; joining files loses none."""
import os
import runpy
import sys

import numpy as np

RULE = ('HDF5 files written from random data (through the file functions and through analyses with croppings, wave vectors, memory '
        'mapping) and read back with and without windows: bitwise comparison; random partitions of runs into files joined by concath5 with '
        'skipped steps; the spectra of restored data against those of the original. Non-trivial: a distinct file content and window')
ASSUMPTIONS = ['the MD cell is stored as the number of unit cells along each axis', 'joined files come from one run set-up']
MONITORS = ['restored_bitwise', 'restored_times', 'restored_cell', 'restored_q', 'one_time_per_step', 'joined_data', 'joined_times', 'joined_cell',
            'analysis_of_restored', 'analysis_window', 'saved_again', 'original_untouched']
MIN_NONTRIVIAL = 100
CPU_LIMIT = 300


def generate(tier, seed):
    k = 3 if tier == 'quick' else 22
    return ([{'kind': 'raw', 'seed': seed * 131 + i} for i in range(80 * k)] +
            [{'kind': 'join', 'seed': seed * 137 + i} for i in range(80 * k)] +
            [{'kind': 'analysis', 'seed': seed * 139 + i} for i in range(60 * k)])


def special(rng, shape, dtype):
    a = rng.normal(size=shape) * 10.0 ** rng.integers(-6, 6)
    if dtype == complex:
        a = a + 1j * rng.normal(size=shape)
    if rng.integers(3) == 0 and a.size:
        f = a.reshape(-1)
        f[rng.integers(a.size)] = 1e300
        f[rng.integers(a.size)] = 5e-324
        f[rng.integers(a.size)] = -0.0
    return a


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    {'raw': raw, 'join': join, 'analysis': analysis}[case['kind']](case, mon, rng, cr, qp)


def pick(rng, max_atoms=16):
    from lib import crystal as cr
    while True:
        c = cr.random_crystal(rng)
        sc = [int(v) for v in rng.permutation([1, int(rng.integers(1, 4)), int(rng.integers(1, 3))])]
        if c.n * np.prod(sc) <= max_atoms:
            return c, sc, int(c.n * np.prod(sc))


def windows(rng, n):
    out = [(None, None)]
    for _ in range(4):
        first = int(rng.integers(1, n + 1))
        last = int(rng.integers(first, n + 3))
        out.append([(first, last), (first, None), (None, last)][int(rng.integers(3))])
    return out


def raw(case, mon, rng, cr, qp):
    from dynaphopy.interface import iofile
    c, sc, nat = pick(rng)
    n = int(rng.integers(2, 40))
    s = cr.to_structure(c)
    what = int(rng.integers(4))     # v, x, both, vc
    dt = complex if rng.integers(3) else float
    v = special(rng, (n, nat, 3), dt) if what in (0, 2) else None
    x = special(rng, (n, nat, 3), dt) if what in (1, 2) else None
    npr = len(set(c.types()))
    vc = special(rng, (n, npr, 3), complex) if what == 3 else None
    q = rng.uniform(-1, 1, 3) if what == 3 else None
    t = float(rng.uniform(0, 50)) * (rng.integers(2)) + np.arange(n) * float(rng.choice([.001, .0025, 1 / 3000.]))
    with cr.quiet():
        iofile.save_data_hdf5('f.h5', t, np.array(sc), trajectory=x, velocity=v, vc=vc, reduced_q_vector=q)
        for first, last in windows(rng, n):
            a = {}
            if first is not None:
                a['initial_cut'] = first
            if last is not None:
                a['final_cut'] = last
            if rng.integers(3) == 0:
                a['memmap'] = True
            rt = bool(rng.integers(2))
            sl = slice((first or 1) - 1, last)
            info = 'window %s-%s of %d, stored %s' % (first, last, n, ['velocity', 'trajectory', 'both', 'vc'][what])
            r = iofile.initialize_from_hdf5_file('f.h5', s, read_trajectory=rt, **a)
            if what == 3:
                gvc, gq, d = r
                mon.same('restored_bitwise', gvc, vc[sl], info=info)
                mon.same('restored_q', gq, q, info=info)
                mon.check('one_time_per_step', len(gvc) == len(d.get_time()), info)
            else:
                d = r
                for name, got, want in (('velocity', d._velocity, v), ('trajectory', d._trajectory, x if rt else None)):
                    if want is None:
                        mon.check('restored_bitwise', got is None, '%s appeared %s' % (name, info))
                    else:
                        mon.same('restored_bitwise', got, want[sl], info=name + ' ' + info)
                        mon.check('one_time_per_step', len(got) == len(d.get_time()), info)
            mon.same('restored_times', d.get_time(), t[sl], info=info)
            mon.close('restored_cell', d.get_supercell(), c.super_cell(sc), rtol=1e-13, info=info)
            mon.check('restored_cell', list(d.get_supercell_matrix()) == sc, info)
            mon.nontrivial(what, n, first, last, nat, str(dt))
            del d, r
    mon.observe(what=what, steps=n, atoms=nat)


def concath5(args):
    old = sys.argv
    sys.argv = ['concath5'] + [str(a) for a in args]
    try:
        runpy.run_path(os.path.join(os.environ['DPH_SRC'], 'scripts', 'concath5'), run_name='__main__')
    finally:
        sys.argv = old


def join(case, mon, rng, cr, qp):
    from dynaphopy.interface import iofile
    c, sc, nat = pick(rng)
    s = cr.to_structure(c)
    nf = int(rng.integers(1, 6))
    lens = rng.integers(2, 15, nf)
    what = int(rng.integers(4))
    npr = len(set(c.types()))
    dt = float(rng.choice([.001, .002, .0025]))
    q = rng.uniform(-.5, .5, 3) if what == 3 else None
    names, data = [], []
    run = float(rng.integers(2)) * 7.5
    style = int(rng.integers(3))     # times of each file: continuing, all from the same start, arbitrary start
    for i, n in enumerate(lens):
        name = 'part%d.h5' % i
        v = special(rng, (n, nat, 3), complex) if what in (0, 2) else None
        x = special(rng, (n, nat, 3), complex) if what in (1, 2) else None
        vc = special(rng, (n, npr, 3), complex) if what == 3 else None
        start = [run, 0.0, float(rng.uniform(0, 9))][style]
        t = start + np.arange(n) * dt
        run += n * dt
        iofile.save_data_hdf5(name, t, np.array(sc), trajectory=x, velocity=v, vc=vc, reduced_q_vector=q)
        names.append(name)
        data.append((v, x, vc, t))
    f = int(rng.integers(0, min(lens))) if rng.integers(2) else 0
    vo = what in (0, 2) and bool(rng.integers(2))
    keep = {p: open(p, 'rb').read() for p in names}
    nested = nf > 2 and f == 0 and rng.integers(3) == 0
    with cr.quiet():
        if nested:
            cut = int(rng.integers(1, nf))
            concath5(names[:cut] + ['a.h5'])
            concath5(names[cut:] + ['b.h5'])
            concath5(['a.h5', 'b.h5', 'all.h5'] + (['--velocity_only'] if vo else []))
        else:
            args = names + ['all.h5']
            opt = (['-f', f] if f or rng.integers(2) else []) + (['--velocity_only'] if vo else [])
            # options after or before the files
            concath5(args + opt if opt[:1] == ['-f'] and rng.integers(2) or not opt else opt + args)
        r = iofile.initialize_from_hdf5_file('all.h5', s)
    info = '%d files of %s steps, skip %d, content %d, times %d, nested %s' % (nf, lens.tolist(), f, what, style, nested)
    want = [None if data[0][j] is None else np.concatenate([d[j][f:] for d in data]) for j in range(3)]
    if what == 3:
        vc, gq, d = r
        mon.same('joined_data', vc, want[2], info=info)
        mon.same('restored_q', gq, q, info=info)
    else:
        d = r
        if want[0] is not None:
            mon.same('joined_data', d._velocity, want[0], info='velocity ' + info)
        if want[1] is not None and not vo:
            mon.same('joined_data', d._trajectory, want[1], info='trajectory ' + info)
        if vo:
            mon.check('joined_data', d._trajectory is None, 'trajectory kept with --velocity_only ' + info)
    t = np.asarray(d.get_time())
    n = int(sum(len(x[3]) - f for x in data))
    mon.check('one_time_per_step', len(t) == n, '%d times for %d steps %s' % (len(t), n, info))
    if len(t) == n:
        mon.close('joined_times', t, data[0][3][f] + np.arange(n) * dt, rtol=0, atol=1e-9, info=info)
    mon.close('joined_cell', d.get_supercell(), c.super_cell(sc), rtol=1e-12, info=info)
    mon.check('original_untouched', all(open(p, 'rb').read() == b for p, b in keep.items()), 'input of concath5 changed')
    mon.nontrivial('join', info, vo)


def analysis(case, mon, rng, cr, qp):
    from dynaphopy.interface import iofile
    c, sc, nat = pick(rng, 10)
    n = int(rng.integers(30, 90))
    s, d, h, fc, x, v = qp.harmonic_case(rng, c, sc, n, float(rng.choice([.001, .002])), velocity=bool(rng.integers(2)), memmap=bool(rng.integers(2)))
    qs = cr.commensurate_q(c, sc)
    q = np.array(qs[int(rng.integers(len(qs)))])
    freq = np.linspace(.5, 30, 50)

    def settings(p):
        return dict(mesh_phonopy=(3, 3, 3), number_of_coefficients_mem=6, correlation_function_step=1, frequency_range=freq,
                    reduced_q_vector=q.copy(), power_spectra_algorithm=p, use_symmetry=False)
    alg = int(rng.integers(4))
    crop = int(rng.integers(15, n)) if rng.integers(2) else None
    with cr.quiet():
        a = qp.make(d, last_steps=crop, **settings(alg))
        m = n if crop is None else crop
        full = np.array(a.get_power_spectrum_full())
        vc = np.array(a.get_vc())
        wave = np.array(a.get_power_spectrum_wave_vector())
        st = bool(rng.integers(2))
        a.save_velocity_hdf5('v.h5', save_trajectory=st)
        a.save_vc_hdf5('vc.h5')
        tt = np.array(a.dynamic.get_time())
        vel = np.array(a.dynamic.velocity)
        tra = np.array(a.dynamic.trajectory)
        # whole
        d1 = iofile.initialize_from_hdf5_file('v.h5', s)
        mon.same('restored_bitwise', d1.velocity, vel)
        if st:
            mon.same('restored_bitwise', d1.trajectory, tra)
        mon.same('restored_times', d1.get_time(), tt)
        b = qp.make(d1, **settings(alg))
        mon.close('analysis_of_restored', b.get_power_spectrum_full(), full, rtol=1e-8)
        mon.close('analysis_of_restored', b.get_vc(), vc, rtol=1e-8)
        mon.close('analysis_of_restored', b.get_power_spectrum_wave_vector(), wave, rtol=1e-8)
        # projected
        vc2, q2, d2 = iofile.initialize_from_hdf5_file('vc.h5', s)
        mon.same('restored_bitwise', vc2, vc)
        mon.same('restored_q', q2, q)
        mon.same('restored_times', d2.get_time(), tt)
        b = qp.make(d2, vc=vc2, **settings(alg))
        b.parameters.reduced_q_vector = q2
        mon.close('analysis_of_restored', b.get_power_spectrum_wave_vector(), wave, rtol=1e-8, info='from vc', mech='from vc')
        # a window, and the last steps of the restored data
        k = int(rng.integers(12, m + 1))
        dw = iofile.initialize_from_hdf5_file('v.h5', s, initial_cut=m - k + 1)
        b = qp.make(dw, **settings(alg))
        c1 = qp.make(iofile.initialize_from_hdf5_file('v.h5', s), last_steps=k, keep=True, **settings(alg))
        mon.close('analysis_window', b.get_power_spectrum_full(), c1.get_power_spectrum_full(), rtol=1e-8, info='last %d of %d' % (k, m))
        vcw, qw, dw = iofile.initialize_from_hdf5_file('vc.h5', s, initial_cut=m - k + 1)
        b = qp.make(dw, vc=vcw, **settings(alg))
        vcf, qw, df = iofile.initialize_from_hdf5_file('vc.h5', s)
        c2 = qp.make(df, vc=vcf, last_steps=k, keep=True, **settings(alg))
        mon.close('analysis_window', b.get_power_spectrum_wave_vector(), c2.get_power_spectrum_wave_vector(), rtol=1e-8, info='vc, last %d of %d' % (k, m), mech='window of vc')
        # what was loaded is saved again
        c1.save_velocity_hdf5('v2.h5', save_trajectory=st)
        d3 = iofile.initialize_from_hdf5_file('v2.h5', s)
        mon.same('saved_again', d3._velocity, vel[-k:])
        mon.same('saved_again', d3.get_time(), tt[-k:])
        if st:
            mon.same('saved_again', d3._trajectory, tra[-k:])
        c2.save_vc_hdf5('vc2.h5')
        vc3, q3, d3 = iofile.initialize_from_hdf5_file('vc2.h5', s)
        mon.same('saved_again', vc3, vc[-k:], info='projection, last %d of %d' % (k, m))
        mon.check('one_time_per_step', len(d3.get_time()) == len(vc3), '%d times for %d steps: projections of the last %d of %d loaded steps saved again' %
                  (len(d3.get_time()), len(vc3), k, m), mech='times of a cropped projection')
        if len(d3.get_time()) == k:
            mon.same('saved_again', d3.get_time(), tt[-k:])
        mon.same('restored_q', q3, q)
    mon.nontrivial('analysis', n, crop, k, alg, st, sc, q.tolist())
    mon.observe(kind='analysis', steps=n, last=crop, window=k, algorithm=alg)
