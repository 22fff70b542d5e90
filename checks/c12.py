"""C12  Analysis results depend on the current settings, not on the call history."""
import contextlib
import io
import os
import re

import numpy as np

RULE = ('one analysis object per case: random sequences of 6-14 setters and queries (wave vector, frequency limits, resolution, '
        'algorithm, coefficients, atom projection, fitting function, band paths, QHA force constants, cropping, temperature, '
        'NAC; every public query, the writers, the printers and the plots), then every query in a random order; each result '
        'is compared with the one of a fresh analysis given only the final settings, each query on an object of its own. '
        'Wave-vector projections loaded from outside and two analyses alive at once are driven too. '
        'Non-trivial: a distinct sequence of operations')
ASSUMPTIONS = ['settings are changed through the public setters (and the options which have none, like silent, through the '
               'parameters)', 'the same code on the same data gives the same numbers to 1e-9',
               'what is fitted to peaks of less than 2e-6 eV is not compared in printed reports']
MONITORS = ['same_as_fresh', 'asked_twice', 'vector_kept', 'range_kept', 'loaded_projection', 'two_objects']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 400


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return ([{'kind': 'history', 'seed': seed * 601 + i} for i in range(110 * k)] +
            [{'kind': 'pairs', 'seed': seed * 607 + i} for i in range(66 * k)] +
            [{'kind': 'loaded', 'seed': seed * 613 + i} for i in range(24 * k)] +
            [{'kind': 'two', 'seed': seed * 617 + i} for i in range(2)])


def text_of(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue()


PROGRESS = ('MD cell size', 'Calculat', 'Projecting', 'Harmonic freq', 'Power spectrum resolution', 'If you need higher',
            'Project on', 'Power spectrum projected', 'warning!', 'Using', 'No velocity', 'Peak analysis', '\rFourier', '\rM. E',
            'set frequency', 'Q-point', 'Skipped', 'Fixing gamma', 'Warning: Fitting')


def result_lines(text):
    out, skip = [], False
    for line in text.splitlines():
        line = line.split('\r')[-1]
        if skip and not line.strip().endswith(']'):
            continue
        if skip:
            skip = False
            continue
        t = line.strip()
        if t.startswith('Harmonic frequencies (THz)'):
            skip = True
            continue
        if t == '' or t.startswith(PROGRESS) or 'Fourier:' in line or 'M.E.M' in line or '%' in line:
            continue
        out.append(t)
    return '\n'.join(out)


def flat(x):
    """numbers of nested results"""
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in flat(x[k])]
    if hasattr(x, 'get_array'):
        return flat(x.get_array()) + flat(x.get_supercell())
    if isinstance(x, (list, tuple)):
        return [y for e in x for y in flat(e)]
    if isinstance(x, (str, bytes)) or x is None:
        return [x]
    return [np.array(x)]


def file_of(write):
    def f(q):
        if os.path.exists('out.tmp'):
            os.remove('out.tmp')
        write(q, 'out.tmp')
        with open('out.tmp') as h:
            return h.read()
    return f


LIGHT = {
    'q_vector': lambda q: q.get_q_vector(),
    'frequency_range': lambda q: q.get_frequency_range(),
    'vc': lambda q: q.get_vc(),
    'vq': lambda q: q.get_vq(),
    'eigenvectors': lambda q: q.get_eigenvectors(),
    'frequencies': lambda q: q.get_frequencies(),
    'ps_phonon': lambda q: q.get_power_spectrum_phonon(),
    'ps_wave_vector': lambda q: q.get_power_spectrum_wave_vector(),
    'ps_full': lambda q: q.get_power_spectrum_full(),
    'ps_full_x': lambda q: q.get_power_spectrum_full(projection_on_coordinate=0),
    'ps_full_z': lambda q: q.get_power_spectrum_full(projection_on_coordinate=2),
    'partials': lambda q: q.get_power_spectrum_partials(),
    'temperature': lambda q: q.get_temperature(),
    'adp': lambda q: q.get_anisotropic_displacement_parameters(coordinate_type='cart', print_on_screen=False),
    'displacements': lambda q: q.get_atomic_displacements([1, 0, 0]),
    'velocity_mass': lambda q: q.dynamic.get_velocity_mass_average(),
    'qha_shift': lambda q: q.get_qha_shift(q.get_reduced_q_vector()),
    'print_bands': lambda q: text_of(q.print_phonon_dispersion_bands),
    'peak_analysis': lambda q: result_lines(text_of(q.phonon_individual_analysis)),
    'file_full': file_of(lambda q, f: q.write_power_spectrum_full(f)),
    'file_wave_vector': file_of(lambda q, f: q.write_power_spectrum_wave_vector(f)),
    'file_phonon': file_of(lambda q, f: q.write_power_spectrum_phonon(f)),
    'file_partials': file_of(lambda q, f: q.get_power_spectrum_partials(save_to_file=f)),
    'file_vq': file_of(lambda q, f: q.save_vq(f)),
    'file_vc': file_of(lambda q, f: q.save_vc(f, 1)),
    'thermal': lambda q: q.get_thermal_properties(),
    'average': lambda q: result_lines(text_of(q.get_average_atomic_positions)),
}
HEAVY = {
    'force_constants': lambda q: q.get_renormalized_force_constants(),
    'quasiparticles': lambda q: q.get_commensurate_points_data(),
    'mesh': lambda q: q.get_mesh_frequencies_and_linewidths(),
    'bands': lambda q: [[b[k] for k in sorted(b) if k != 'labels'] for b in q.get_renormalized_phonon_dispersion_bands()],
    'bands_widths': lambda q: [[b[k] for k in sorted(b) if k != 'labels'] for b in
                               q.get_renormalized_phonon_dispersion_bands(with_linewidths=True)],
    'properties': lambda q: q.get_commensurate_points_properties(),
    'thermal_renormalized': lambda q: q.get_thermal_properties(force_constants=q.get_renormalized_force_constants()),
    'thermal_text': lambda q: text_of(lambda: q.display_thermal_properties(from_power_spectrum=True)).split('Using mesh')[-1]
    .split('Thermal properties per unit')[-1],
    'file_quasiparticles': file_of(lambda q, f: q.write_quasiparticles_data(f)),
    'file_quasiparticles_extra': file_of(lambda q, f: q.write_quasiparticles_data(f, with_extra=True)),
    'file_constants': file_of(lambda q, f: q.write_renormalized_constants(f)),
    'file_mesh': file_of(lambda q, f: q.write_mesh_data(f)),
    'file_bands': file_of(lambda q, f: q.write_renormalized_phonon_dispersion_bands(f)),
}
ALL = dict(LIGHT, **HEAVY)
# side queries made in the middle of a history only
SIDE = {
    'plot_full': lambda q: q.plot_power_spectrum_full(),
    'plot_phonon': lambda q: q.plot_power_spectrum_phonon(),
    'plot_wave_vector': lambda q: q.plot_power_spectrum_wave_vector(),
    'plot_bands': lambda q: q.plot_phonon_dispersion_bands(),
    'plot_distribution': lambda q: q.plot_trajectory_distribution([0, 1, 0]),
    'plot_dos': lambda q: q.plot_dos_phonopy(),
    'boltzmann': lambda q: q.show_boltzmann_distribution(),
    'save_velocity': lambda q: q.save_velocity_hdf5('v_%d.hdf5' % os.getpid()),
    'save_vc': lambda q: q.save_vc_hdf5('vc_%d.hdf5' % os.getpid()),
    'coefficient_scan': lambda q: q.phonon_width_scan_analysis(),
    'plot_vq': lambda q: q.plot_vq(),
    'plot_vc': lambda q: q.plot_vc(),
    'plot_trajectory': lambda q: q.plot_trajectory(),
    'plot_velocity': lambda q: q.plot_velocity(),
    'plot_renormalized_bands': lambda q: q.plot_renormalized_phonon_dispersion_bands(plot_linewidths=True),
    'plot_linewidths': lambda q: q.plot_linewidths_and_shifts_bands(),
    'plot_frequencies': lambda q: q.plot_frequencies_vs_linewidths(),
    'plot_eigenvectors': lambda q: q.plot_eigenvectors(),
    'write_xsf': lambda q: q.write_to_xfs_file('x_%d.xsf' % os.getpid()),
    'commensurate': lambda q: q.check_commensurate([.5, 0, .25]),
    'crys_adp': lambda q: q.get_anisotropic_displacement_parameters(),
}


def guarded(f, q):
    """phonopy refuses a density of states when no fit succeeded (all frequencies zero): the fresh analysis must fail alike"""
    try:
        return f(q)
    except ValueError as e:
        if 'arange' not in str(e):
            raise
        return ['refused: no renormalised frequencies']


class State:
    """The settings a user has made, in the user's words."""

    def __init__(self):
        self.d = {'q': [0., 0., 0.], 'range': None, 'resolution': .05, 'algorithm': 2, 'mem': 25, 'project': -1, 'fit': 0,
                  'bands': None, 'qha': None, 'crop': None, 'temperature': None, 'nac': False}

    def apply_fresh(self, q, path):
        """onto a fresh analysis (after cropping), each setting once"""
        import dynaphopy.interface.phonopy_link as pl
        d = self.d
        p = q.parameters
        p.spectrum_resolution = d['resolution']
        p.frequency_range = np.array(d['range'])
        p.power_spectra_algorithm = d['algorithm']
        p.number_of_coefficients_mem = d['mem']
        p.project_on_atom = d['project']
        p.fitting_function = d['fit']
        p.reduced_q_vector = np.array(d['q'])
        if d['bands'] is not None:
            p.band_ranges = {'ranges': d['bands']}
        if d['qha'] is not None:
            with contextlib.redirect_stdout(io.StringIO()):
                q.set_qha_force_constants(d['qha'])
        if d['temperature'] is not None:
            q.set_temperature(d['temperature'])


def powerful(text):
    """The peaks of a report without those of modes which do not move: what is fitted there is rounding."""
    head, *peaks = text.split('Peak # ')
    return 'Peak # '.join([head] + [p if not re.search(r'\(Total\) +-?0\.00000[01] eV', p) else p.split()[0] + '\n' for p in peaks])


def compare(mon, name, got, want, info, mech=None):
    g, w = [[powerful(x) if isinstance(x, str) else x for x in flat(y)] for y in (got, want)]
    if not mon.check(name, len(g) == len(w), '%d parts instead of %d %s' % (len(g), len(w), info), mech=mech):
        return False
    for a, b in zip(g, w):
        if isinstance(a, str) or a is None or b is None or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and a != b:
                # numbers printed at the edge of rounding
                ta, tb = a.replace(',', ' ').replace('[', ' ').replace(']', ' ').split(), \
                    b.replace(',', ' ').replace('[', ' ').replace(']', ' ').split()
                ok = len(ta) == len(tb)
                if ok:
                    for x, y in zip(ta, tb):
                        if x != y:
                            try:
                                cx, cy = complex(x), complex(y)
                            except ValueError:
                                ok = False
                                break
                            if abs(cx - cy) > 2e-4 * max(1e-2, abs(cy)):
                                ok = False
                                break
                if not mon.check(name, ok, 'text differs: %r instead of %r %s' % (a[:300], b[:300], info), mech=mech):
                    return False
            elif not mon.check(name, type(a) is type(b) and (a is None or a == b), '%r %r %s' % (a, b, info), mech=mech):
                return False
        else:
            if a.dtype.kind in 'OSU':
                if not mon.check(name, a.shape == b.shape and (a == b).all(), info, mech=mech):
                    return False
            elif not mon.close(name, a, b, rtol=2e-7, atol=1e-17, info=info, mech=mech):
                return False
    return True


def build(case, cr, qp, rng, velocities=None):
    while True:
        if rng.integers(2):
            c = cr.random_crystal(rng, nprim=int(rng.integers(1, 3)))
        else:
            c = cr.named_crystal(str(rng.choice(['cscl', 'bcc', 'sc', 'tetra', 'ortho', 'hcp'])))
        sc = [int(x) for x in rng.permutation([1, 1, 2])]
        if 2 <= c.n * np.prod(sc) <= 8:
            break
    fc = qp.springs(c, sc, rng)
    h = cr.Harmonic(c, fc, sc)
    n = int(rng.integers(160, 260))
    dt = .004
    t, x, v = h.trajectory(rng, n, dt, 300)
    s = cr.to_structure(c, fc, sc)
    w = rng.integers(-1, 2, size=(1, len(h.m), 3))
    mode = int(rng.integers(3)) if velocities is None else 0         # 0 both, 1 positions only, 2 both
    d = cr.to_dynamics(c, s, sc, disp=x, velocity=v if mode != 1 else None, dt=dt, wrap=w)
    return c, sc, fc, n, s, d, h


def fresh_dynamics(d0, crop):
    """an independent copy of the data as loaded"""
    from dynaphopy.dynamics import Dynamics
    sl = slice(None) if crop is None else slice(-crop, None)
    return Dynamics(structure=d0['structure'](), trajectory=d0['trajectory'][sl].copy(),
                    velocity=None if d0['velocity'] is None else d0['velocity'][sl].copy(),
                    time=d0['time'][sl].copy(), supercell=d0['supercell'].copy())


def run_case(case, mon):
    from lib import crystal as cr, qp
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: plt.close('all')
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'two':
        return two(case, mon, rng, cr, qp)
    c, sc, fc, n, s, d, h = build(case, cr, qp, rng, True if case['kind'] == 'loaded' else None)
    vel = None if d._velocity is None else d._velocity.copy()
    d0 = dict(structure=lambda: cr.to_structure(c, fc, sc), trajectory=d.trajectory.copy(), velocity=vel,
              time=np.array(d.get_time()), supercell=np.array(d.get_supercell()))
    fmax = h.freq.max()
    # the starting settings
    st = State()
    top = float(np.round(fmax * 1.3, 1))
    st.d['resolution'] = float(rng.choice([.2, .3]))
    st.d['range'] = np.arange(0, top + st.d['resolution'], st.d['resolution'])
    st.d['algorithm'] = int(rng.integers(4))
    st.d['bands'] = [[np.array([0., 0, 0]), np.array([.5, 0, 0])], [np.array([.5, 0, 0]), np.array([.5, .5, .5])]]
    comm = cr.commensurate_q(c, sc)
    ntypes = int(c.types().max()) + 1
    # force constants of a second calculation, for the QHA shifts
    import dynaphopy.interface.phonopy_link as pl
    qfile = os.path.abspath('qha_%d.dat' % case['seed'])
    with cr.quiet():
        pl.save_force_constants_to_file(pl.ForceConstants(fc * 1.13, supercell=np.diag(sc)), qfile)

    common = dict(mesh_phonopy=(3, 3, 3), correlation_function_step=5, band_resolution=5, mem_scan_range=np.array([8, 13, 21, 34]))
    if case['kind'] == 'loaded':
        return loaded(case, mon, rng, cr, qp, st, d0, c, sc, common, comm)

    def new(crop=None):
        q = qp.make(fresh_dynamics(d0, crop), **common)
        return q

    qp.reset_parameters()
    q = new()
    with cr.quiet():
        st.apply_fresh(q, None)
    twin = bool(rng.integers(2))

    def setter(name):
        v = None
        near = bool(rng.integers(2))        # a value close to the present one
        if name == 'q':
            v = [comm[int(rng.integers(len(comm)))], rng.uniform(-.5, .5, 3)][int(rng.integers(4) == 0)]
            if near:
                v = np.array(st.d['q']) + rng.choice([-1, 0, 1], 3) * 10. ** rng.integers(-4, -1)
            v = np.array(v, float)
            q.set_reduced_q_vector(v if rng.integers(2) else list(v))
            st.d['q'] = v
        elif name == 'range':
            lo = float(rng.choice([0., .5, 1.]))
            hi = float(np.round(fmax * rng.uniform(.9, 1.5), 1))
            if near and len(st.d['range']) > 14:
                lo = max(0., st.d['range'][0] + st.d['resolution'] * float(rng.choice([0, .05, .25])))
                hi = st.d['range'][-1] - st.d['resolution'] * float(rng.choice([.4, .55, 1.5]))
            lo = min(lo, hi - 14 * st.d['resolution'])      # the peak fit needs more points than parameters
            if lo < 0:
                lo, hi = 0., 14 * st.d['resolution']
            q.set_frequency_limits([lo, hi])
            st.d['range'] = np.arange(lo, hi + st.d['resolution'], st.d['resolution'])
        elif name == 'resolution':
            v = float(rng.choice([.15, .2, .25, .3]))
            if v * 13 > st.d['range'][-1] - st.d['range'][0]:
                near = True
            if near:
                v = st.d['resolution'] * float(rng.choice([1.004, .997, 1.02]))
            a, b = st.d['range'][0], st.d['range'][-1]
            q.set_spectra_resolution(v)
            st.d['resolution'] = v
            st.d['range'] = np.arange(a, b + v, v)
        elif name == 'algorithm':
            v = int(rng.integers(4))
            q.select_power_spectra_algorithm(v)
            st.d['algorithm'] = v
        elif name == 'mem':
            v = int(rng.integers(5, 60)) if not near else st.d['mem'] + int(rng.choice([-1, 1]))
            q.set_number_of_mem_coefficients(v)
            st.d['mem'] = v
        elif name == 'project':
            v = int(rng.integers(ntypes))
            q.set_projection_onto_atom_type(v)
            st.d['project'] = v
        elif name == 'fit':
            v = int(rng.integers(3))
            q.select_fitting_function(v)
            st.d['fit'] = v
        elif name == 'bands':
            v = [[rng.uniform(0, .5, 3).round(2), rng.uniform(0, .5, 3).round(2)] for _ in range(int(rng.integers(1, 3)))]
            q.set_band_ranges(v)
            st.d['bands'] = v
        elif name == 'qha':
            q.set_qha_force_constants(qfile)
            st.d['qha'] = qfile
        elif name == 'crop':
            m = n if st.d['crop'] is None else st.d['crop']
            v = int(rng.integers(max(60, m // 2), m + 1)) if not near else m - int(rng.integers(0, 3))
            q.crop_trajectory(v)
            st.d['crop'] = v
        elif name == 'temperature':
            v = float(np.round(rng.uniform(100, 500), 1))
            if near and st.d['temperature']:
                v = st.d['temperature'] + float(rng.choice([.01, .4, -2]))
            q.set_temperature(v)
            st.d['temperature'] = v
        elif name == 'nac':
            q.set_NAC(False)
        elif name == 'silent':
            q.parameters.silent = bool(rng.integers(2))
        return v

    SETTERS = ['q', 'q', 'range', 'resolution', 'algorithm', 'mem', 'project', 'fit', 'bands', 'qha', 'crop', 'temperature',
               'nac', 'silent']
    log = []

    def ask(name, table=ALL):
        before_q, before_r = np.array(q.get_reduced_q_vector()), np.array(q.get_frequency_range())
        with cr.quiet():
            silent = q.parameters.silent
            r = guarded(table[name], q)
        mon.check('vector_kept', np.array_equal(before_q, q.get_reduced_q_vector()),
                  '%s changes the wave vector from %s to %s' % (name, before_q, q.get_reduced_q_vector()))
        mon.check('range_kept', np.array_equal(before_r, q.get_frequency_range()),
                  '%s changes the frequency range (%s..%s to %s..%s)' % (name, before_r[0], before_r[-1],
                                                                         q.get_frequency_range()[0], q.get_frequency_range()[-1]))
        mon.check('range_kept', q.parameters.silent == silent, name + ' changes silent')
        return r

    heavy_n = 3 if case['kind'] == 'history' else 1
    if case['kind'] == 'pairs':
        # query, one setter, the same and other queries
        names = [k for k in ALL]
        first = names[case['seed'] % len(names)]
        sett = SETTERS[int(rng.integers(len(SETTERS)))]
        with cr.quiet():
            log.append(first)
            a = ask(first)
            log.append(sett)
            setter(sett)
            others = [first] + [str(x) for x in rng.permutation([x for x in LIGHT if x != first])[:6]] + \
                [str(x) for x in rng.permutation(list(HEAVY))[:1]]
            order = [others[0]] + [str(x) for x in rng.permutation(others[1:])]
    else:
        with cr.quiet():
            for _ in range(int(rng.integers(6, 15))):
                u = rng.uniform()
                if u < .42:
                    nm = SETTERS[int(rng.integers(len(SETTERS)))]
                    setter(nm)
                    log.append('set ' + nm)
                elif u < .75:
                    nm = str(rng.choice(list(ALL)))
                    if nm in HEAVY:
                        heavy_n -= 1
                        if heavy_n < 0:
                            continue
                    ask(nm)
                    log.append(nm)
                else:
                    nm = str(rng.choice(list(SIDE)))
                    ask(nm, SIDE)
                    log.append(nm)
            order = [str(x) for x in rng.permutation(list(LIGHT))[:16]] + [str(x) for x in rng.permutation(list(HEAVY))[:2]]
            order = [str(x) for x in rng.permutation(order)]
    info0 = 'after ' + ', '.join(log)
    results = {}
    with cr.quiet():
        mon.close('range_kept', q.get_frequency_range(), st.d['range'], rtol=0, atol=1e-12, info=info0)
        for nm in order:
            results[nm] = [ask(nm)]
            # deep copies: a later query must not alter what was returned
            results[nm] = [[x.copy() if isinstance(x, np.ndarray) else x for x in flat(results[nm][0])]]
        for nm in [str(x) for x in rng.permutation(order)[:5]]:
            compare(mon, 'asked_twice', ask(nm), results[nm][0], nm + ' asked twice ' + info0, mech='asked_twice:' + nm)
    crop, final, silent = st.d['crop'], st, q.parameters.silent
    with cr.quiet():
        for nm in order:
            f = new(crop)
            final.apply_fresh(f, None)
            f.parameters.silent = silent
            want = guarded(ALL[nm], f)
            compare(mon, 'same_as_fresh', results[nm][0], want, '%s %s' % (nm, info0), mech='history:' + nm)
    mon.nontrivial(*log)
    mon.count('operations', len(log))
    mon.count('results_compared', len(order))
    mon.observe(history=', '.join(log), queries=', '.join(order), settings=str({k: v for k, v in st.d.items() if k not in ('range', 'bands')}))


def loaded(case, mon, rng, cr, qp, st, d0, c, sc, common, comm):
    """wave-vector projections supplied from outside (option -lv of a projection file)"""
    import dynaphopy
    qr = comm[int(rng.integers(len(comm)))]
    if c.types().max() == 0:
        qr = comm[-1] if np.abs(comm[0]).max() < 1e-9 else comm[0]      # nothing moves at Gamma of a monatomic crystal
    P = dict(use_symmetry=False, **common)
    with cr.quiet():
        base = qp.make(fresh_dynamics(d0, None), **P)
        st.apply_fresh(base, None)
        base.set_reduced_q_vector(qr)
        vc = np.array(base.get_vc())
    qp.reset_parameters()
    d = fresh_dynamics(d0, None)
    last = int(rng.integers(60, len(vc))) if rng.integers(2) else None
    log = ['last_steps %s' % last]
    with cr.quiet():
        q = qp.make(d, vc=vc.copy(), last_steps=last, **P)
        st.d['q'] = np.array(qr)
        st.apply_fresh(q, None)
        tab = {k: ALL[k] for k in ('vc', 'vq', 'ps_phonon', 'ps_wave_vector', 'file_phonon', 'file_vq', 'peak_analysis',
                                   'frequencies', 'eigenvectors')}
        crop = last
        for _ in range(int(rng.integers(2, 7))):
            nm = str(rng.choice(list(tab) + ['range', 'algorithm', 'mem', 'fit', 'crop', 'same_q']))
            log.append(nm)
            if nm in tab:
                tab[nm](q)
            elif nm == 'range':
                hi = float(np.round(rng.uniform(10, 20), 1))
                q.set_frequency_limits([0, hi])
                st.d['range'] = np.arange(0, hi + st.d['resolution'], st.d['resolution'])
            elif nm == 'algorithm':
                st.d['algorithm'] = int(rng.integers(4))
                q.select_power_spectra_algorithm(st.d['algorithm'])
            elif nm == 'mem':
                st.d['mem'] = int(rng.integers(5, 50))
                q.set_number_of_mem_coefficients(st.d['mem'])
            elif nm == 'fit':
                st.d['fit'] = int(rng.integers(3))
                q.select_fitting_function(st.d['fit'])
            elif nm == 'same_q':
                q.set_reduced_q_vector(np.array(qr))
            elif nm == 'crop':
                crop = int(rng.integers(50, (crop or len(vc)) + 1))
                q.crop_trajectory(crop)
        order = [str(x) for x in rng.permutation(list(tab))]
        got = {k: [x.copy() if isinstance(x, np.ndarray) else x for x in flat(tab[k](q))] for k in order}
        for k in order:
            f = qp.make(fresh_dynamics(d0, crop), **P)
            st.apply_fresh(f, None)
            compare(mon, 'loaded_projection', got[k], tab[k](f), '%s with loaded projection after %s' % (k, ', '.join(log)),
                    mech='loaded:' + k)
    mon.nontrivial('loaded', *log)


def two(case, mon, rng, cr, qp):
    """Two analyses alive at once: the settings of one must not act on the other."""
    c = cr.named_crystal('cscl')
    sc = [2, 1, 1]
    fc = qp.springs(c, sc, rng)
    h = cr.Harmonic(c, fc, sc)
    t, x, v = h.trajectory(rng, 150, .004, 300)
    mk = lambda: cr.to_dynamics(c, cr.to_structure(c, fc, sc), sc, disp=x, velocity=v, dt=.004)
    import dynaphopy
    P = dict(power_spectra_algorithm=2, use_symmetry=False, frequency_range=np.arange(0, 15, .2), mesh_phonopy=(3, 3, 3))
    with cr.quiet():
        a = qp.make(mk(), **P)
        ref = np.array(a.get_vc())
        a = qp.make(mk(), **P)
        b = dynaphopy.Quasiparticle(mk())
        b.set_reduced_q_vector([.5, 0, 0])
        b.get_vc()
        got = np.array(a.get_vc())
    mon.seen('two_objects')
    if got.shape != ref.shape or np.abs(got - ref).max() > 1e-9:
        mon.fail('shared_settings', 'the wave vector set in a second analysis acts on the first one')
    mon.nontrivial('two', case['seed'])
