"""C24  The command line gives the library's results for every option."""
import contextlib
import io
import os
import runpy
import sys

import numpy as np

RULE = ('complete runs of the command-line program (and of fitdata) on generated MD files, structure files, force constants or force sets '
        'and input files with random combinations of options and requests: every file and printed table against the Python interface '
        'given the same settings, the settings the program ended with, separate runs against the combined one, plotted curves through a '
        'hooked matplotlib. Non-trivial: a distinct combination of options and requests')
ASSUMPTIONS = ['the readers are the same for both (they are judged by other properties)',
               'a wave vector is not given together with a loaded projection']
MONITORS = ['settings', 'file', 'printed', 'separate_runs', 'plotted', 'generated', 'supercell_file', 'loaded_projection', 'loaded_data',
            'fitdata_saved', 'fitdata_fits', 'exit_code']
MIN_NONTRIVIAL = 40
CPU_LIMIT = 500
MEM_TAGS = ('sd', 'sw', 'sp')


def generate(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([{'kind': 'run', 'seed': seed * 2609 + i} for i in range(72 * k)] +
            [{'kind': 'generate', 'seed': seed * 2617 + i} for i in range(24 * k)] +
            [{'kind': 'reload', 'seed': seed * 2621 + i} for i in range(24 * k)] +
            [{'kind': 'fitdata', 'seed': seed * 2633 + i} for i in range(36 * k)])


class Shown:
    """what the program plotted"""

    def __init__(self):
        self.curves = []

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        self.plot, self.show = Axes.plot, plt.show
        me = self

        def plot(ax, *a, **k):
            if len(a) > 1:
                me.curves.append((np.array(a[0], float), np.array(a[1])))
            return me.plot(ax, *a, **k)
        Axes.plot = plot
        plt.show = lambda *a, **k: plt.close('all')
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        Axes.plot, plt.show = self.plot, self.show
        plt.close('all')


def program(name, args, seed=None):
    """(printed text, exit code, globals, plotted curves)"""
    from lib import qp
    qp.reset_parameters()
    old = sys.argv
    sys.argv = [name] + [str(a) for a in args]
    if seed is not None:
        np.random.seed(seed)
    out = io.StringIO()
    g, code = {}, 0
    try:
        with Shown() as shown, contextlib.redirect_stdout(out):
            try:
                g = runpy.run_path(os.path.join(os.environ['DPH_SRC'], 'scripts', name), run_name='__main__')
            except SystemExit as e:
                code = e.code
                if code not in (0, None) or 'usage' in out.getvalue():
                    code = code or 1
    finally:
        sys.argv = old
    return out.getvalue(), code, g, shown.curves


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    from lib import crystal as cr, qp, mdcase
    {'run': run, 'generate': generated, 'reload': reload_, 'fitdata': fitdata}[case['kind']](case, mon, rng, cr, qp, mdcase)


# --- the set up

def build(rng, cr, qp, mdcase, symmetric=False, fmts=('lammps_x', 'lammps_v', 'xdatcar', 'hdf5'), positions=False):
    import dynaphopy.interface.phonopy_link as pl
    from lib.mdcase import grouped
    while True:
        if symmetric or rng.integers(2):
            c = cr.named_crystal(str(rng.choice(['cscl', 'bcc', 'sc', 'tetra', 'fcc', 'ortho'])))
        else:
            c = cr.random_crystal(rng)
        c = grouped(c)
        sc = [int(x) for x in rng.permutation([1, int(rng.integers(1, 3)), int(rng.integers(1, 3))])]
        if 2 <= c.n * np.prod(sc) <= 8:
            break
    B = type('Built', (), {})()
    B.c, B.sc = c, sc
    B.fsc = list(sc) if rng.integers(2) else [int(x) for x in rng.permutation([1, 1, 2])]
    fc = qp.springs(c, B.fsc, rng)
    h = cr.Harmonic(c, qp.springs(c, sc, rng), sc)
    B.n = int(rng.integers(220, 420))
    B.dt = .01
    t, x, v = h.trajectory(rng, B.n, B.dt, 150.)
    v = v + rng.normal(size=v.shape) * .3
    x = x + rng.normal(size=x.shape) * .005
    B.fmax = float(max(h.freq.max(), cr.Harmonic(c, fc, B.fsc).freq.max()))
    el, cnt = mdcase.blocks(c.elements)
    with open('POSCAR', 'w') as f:
        f.write('check\n1.0\n')
        for r in c.cell:
            f.write(' %.16f %.16f %.16f\n' % tuple(r))
        f.write(' '.join(el) + '\n' + ' '.join(str(i) for i in cnt) + '\nDirect\n')
        for r in c.scaled:
            f.write(' %.16f %.16f %.16f\n' % tuple(r))
    B.outcar = bool(rng.integers(4) == 0)
    if B.outcar:                # the structure from a VASP run
        from lib import mdfiles
        with open('OUTCAR.cell', 'w') as f:
            f.write(mdfiles.outcar([c.positions], [0.], c.cell, cnt, [cr.MASS[e] for e in el], 1.0, filler=int(rng.integers(0, 30))))
    s = cr.to_structure(c, fc, B.fsc)
    arr = np.array(s.get_force_constants().get_array())
    B.sets = bool(rng.integers(4) == 0) and B.fsc != [1, 1, 1]
    with cr.quiet():
        pl.save_force_constants_to_file(pl.ForceConstants(arr, supercell=np.diag(B.fsc)), 'FC')
        pl.save_force_constants_to_file(pl.ForceConstants(arr * 1.1, supercell=np.diag(B.fsc)), 'FC_QHA')
    if B.sets:
        nc = int(np.prod(B.fsc))
        with open('FSETS', 'w') as f:
            f.write('%d\n%d\n' % (len(arr), 6 * c.n))
            for i in range(c.n):
                for a in range(3):
                    for sg in (1, -1):
                        u = np.zeros(3)
                        u[a] = .01 * sg
                        f.write('\n%d\n%.16f %.16f %.16f\n' % (i * nc + 1, u[0], u[1], u[2]))
                        for j in range(len(arr)):
                            f.write('%.16f %.16f %.16f\n' % tuple(-np.dot(arr[j, i * nc], u)))
    B.mesh = [int(y) for y in rng.integers(2, 5, 3)]
    B.bands = [([0., 0., 0.], [.5, 0., 0.]), ([.5, 0., 0.], [.5, .5, .25])][:int(rng.integers(1, 3))]
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE %s\n\n%s\n\nPRIMITIVE MATRIX\n' % ('OUTCAR\nOUTCAR.cell' if B.outcar else 'POSCAR\nPOSCAR',
                                                                  'FORCE SETS\nFSETS' if B.sets else 'FORCE CONSTANTS\nFC'))
        for r in c.pm:
            f.write('%.16f %.16f %.16f\n' % tuple(r))
        f.write('\nSUPERCELL MATRIX\n%d 0 0\n0 %d 0\n0 0 %d\n' % tuple(B.fsc))
        f.write('\nMESH PHONOPY\n%d %d %d\n' % tuple(B.mesh))
        f.write('\nBANDS\n' + ''.join('%r %r %r  %r %r %r\n' % (tuple(a) + tuple(b)) for a, b in B.bands))
    B.fmt = str(rng.choice(fmts))
    B.positions = B.fmt != 'lammps_v'
    pos = c.super_positions(sc) + x
    if B.fmt == 'hdf5':
        import h5py
        B.md = 'data.h5'
        B.load = True
        from dynaphopy.interface import iofile
        with cr.quiet():
            iofile.save_data_hdf5(B.md, np.arange(B.n) * B.dt, np.array(sc), trajectory=pos.astype(complex), velocity=v.astype(complex))
    else:
        B.md = 'MD.' + B.fmt
        B.load = False
        B.order = rng.permutation(pos.shape[1]) if B.positions and rng.integers(3) == 0 else None
        if B.order is not None:         # the atoms of the MD file in an order of their own
            pos, v = pos[:, B.order], v[:, B.order]
        mdcase.write(rng, B.fmt, c, sc, pos, B.md, vel=v, digits=8, dt=B.dt, regular=True)
    return B


def structure(B):
    from dynaphopy.interface import iofile
    import dynaphopy.interface.phonopy_link as pl
    s = iofile.read_from_file_structure_outcar('OUTCAR.cell') if B.outcar else iofile.read_from_file_structure_poscar('POSCAR')
    s.set_primitive_matrix(np.array(B.c.pm, float))
    if B.sets:
        s.set_force_set(pl.get_force_sets_from_file(file_name='FSETS', fs_supercell=np.diag(B.fsc)))
    else:
        s.set_force_constants(pl.get_force_constants_from_file(file_name='FC', fc_supercell=np.diag(B.fsc)))
    return s


def settings(B, rng, symmetric, comm, ntypes):
    """options: {name: value}"""
    o = {}
    o['ts'] = B.dt
    if rng.integers(2):
        o['read_from'] = int(rng.integers(1, 40))
    if rng.integers(2):
        o['read_to'] = int(rng.integers(B.n - 60, B.n + 1))
    if rng.integers(3) == 0:
        o['n'] = int(rng.integers(100, 160))
    q = np.array(comm[int(rng.integers(len(comm)))])
    if rng.integers(3):
        o['q'] = [float(y) for y in q]
        if rng.integers(5) == 0:        # wave vectors off the grid of the supercell, written with many digits or as fractions
            o['q'] = [float(rng.choice([3 / 37., 7 / 53., .2718, 0.013579])) if rng.integers(2) else y for y in o['q']]
    top = float(np.round(B.fmax * rng.uniform(1.1, 1.6), 1))
    if rng.integers(4):
        o['range'] = [float(rng.choice([0., 0., .5, 1])), top]
        o['resolution'] = float(rng.choice([.1, .15, .2]))
        if rng.integers(6) == 0:
            del o['resolution']
    elif rng.integers(4):
        o['resolution'] = .4
    o['algorithm'] = int(rng.choice([0, 1, 1, 2, 2, 3]))
    if o['algorithm'] == 1 or rng.integers(3) == 0:
        o['cf'] = int(rng.integers(8, 60))
    if rng.integers(3) == 0:
        o['fit'] = int(rng.integers(3))
    if rng.integers(3) == 0:
        o['no_symmetry'] = True
    if rng.integers(2):
        o['MD_commensurate'] = True
    if symmetric and rng.integers(2):
        o['fcsymm'] = True
    if rng.integers(2):
        o['temperature'] = float(np.round(rng.uniform(50, 900), 1))
    if rng.integers(5) == 0:
        o['project'] = int(rng.integers(ntypes))
    if rng.integers(4) == 0:
        o['memmap'] = True
        o['read_to'] = o.get('read_to', B.n)        # the readers ask for it
    if rng.integers(4):
        o['silent'] = True
    if rng.integers(5) == 0:
        o['symprec'] = float(rng.choice([1e-4, 1e-3]))
    if rng.integers(4) == 0:
        o['qha'] = True
    if rng.integers(6) == 0:
        o['saverf'] = True
    if B.load and rng.integers(3) == 0 and B.positions:
        o['velocity_only'] = True
    return o


def fraction(rng, x):
    f = {0.: ['0', '0.0', '0/3'], .5: ['1/2', '0.5', '2/4'], 1 / 3.: ['1/3'], 2 / 3.: ['2/3'], .25: ['1/4', '.25'], -.5: ['-1/2'], 3 / 37.: ['3/37'], 7 / 53.: ['7/53', '14/106']}
    for k, v in f.items():
        if abs(x - k) < 1e-12:
            return str(rng.choice(v))
    return repr(x)


def arguments(B, o, rng, load=None):
    a = []
    flags = {'no_symmetry': '--no_symmetry', 'MD_commensurate': '--MD_commensurate', 'fcsymm': '--fcsymm', 'memmap': '--memmap',
             'silent': '--silent', 'saverf': '--save_renormalized_frequencies', 'velocity_only': '--velocity_only'}
    for k, v in o.items():
        if k in flags:
            a.append([flags[k]])
        elif k == 'q':
            if any(y < 0 for y in v):
                v = [y % 1 for y in v]
            a.append(['-q'] + [fraction(rng, y) for y in v])
        elif k == 'range':
            a.append([str(rng.choice(['-r', '--frequency_range']))] + [repr(y) for y in v])
        elif k == 'qha':
            a.append(['--qha_force_constants', 'FC_QHA'])
        elif k == 'ts':
            if not B.load:
                a.append([str(rng.choice(['-ts', '--time_step'])), repr(v)])
        else:
            a.append([{'resolution': '--resolution', 'n': '-n', 'read_from': '--read_from', 'read_to': '--read_to', 'algorithm': '-psm',
                       'cf': '-cf', 'fit': '--fitting_function', 'temperature': '--temperature', 'project': '--project_on_atom',
                       'symprec': '--symprec'}[k], repr(v)])
    rng.shuffle(a)
    flat = [y for x in a for y in x]
    md = ['-lv', B.md] if B.load else [B.md]
    if not B.load and B.order is not None:
        flat.insert(0, '--auto_order')
    return ['input'] + md + flat


def api(B, o):
    """a fresh analysis with these settings"""
    from lib import crystal as cr, qp
    import dynaphopy
    from dynaphopy.interface import iofile
    p = qp.reset_parameters()
    p.symprec = o.get('symprec', 1e-5)
    with contextlib.redirect_stdout(io.StringIO()):
        s = structure(B)
        first, last = o.get('read_from', 1), o.get('read_to')
        if B.load:
            d = iofile.initialize_from_hdf5_file(B.md, s, read_trajectory=not o.get('velocity_only', False), initial_cut=first, final_cut=last)
        else:
            from lib import mdcase
            d = mdcase.reader(B.fmt)(B.md, s, B.dt, initial_cut=first, end_cut=last)
            if B.order is not None:
                d = type(d)(structure=s, trajectory=np.array(d.trajectory)[:, np.argsort(B.order)], time=d.get_time(), supercell=d.get_supercell(),
                            energy=d.get_energy())
        vc = None
        if isinstance(d, (list, tuple)):
            vc, q, d = d
        a = dynaphopy.Quasiparticle(d, vc=vc)
        if o.get('n'):
            a.crop_trajectory(o['n'])
        P = a.parameters
        P.silent = True
        P.mesh_phonopy = np.array(B.mesh)
        P.band_ranges = {'ranges': [[np.array(x), np.array(y)] for x, y in B.bands]}
        P.use_symmetry = not o.get('no_symmetry', False) and vc is None
        P.symmetrize = o.get('fcsymm', False)
        P.use_MD_cell_commensurate = o.get('MD_commensurate', False)
        P.save_renormalized_frequencies = False
        P.fitting_function = o.get('fit', 0)
        P.power_spectra_algorithm = o.get('algorithm', 1)
        P.number_of_coefficients_mem = o.get('cf', 1000)
        P.project_on_atom = o.get('project', -1)
        res = o.get('resolution', .05)
        P.spectrum_resolution = res
        lo, hi = o.get('range', (0, None))
        if hi is None:
            base = np.arange(0, 40.05, .05)
            P.frequency_range = base if 'resolution' not in o else np.arange(base[0], base[-1] + res, res)
        else:
            P.frequency_range = np.arange(lo, hi + res, res)
        P.reduced_q_vector = np.array(o.get('q', (0, 0, 0)) if vc is None else q, float)
        if o.get('qha'):
            a.set_qha_force_constants('FC_QHA')
        if o.get('temperature') is not None:
            a.set_temperature(o['temperature'])
    return a


def tokens(f):
    with open(f) as h:
        return h.read()


def number_tokens(text):
    out = []
    for t in text.replace(',', ' ').replace(':', ' ').replace('-j', 'j').split():
        try:
            z = complex(t)
            out.append(t if 'inf' in t or 'nan' in t else z)
        except ValueError:
            out.append(t)
    return out


def same_text(mon, name, a, b, info, rtol=1e-6):
    x, y = number_tokens(a), number_tokens(b)
    if not mon.check(name, len(x) == len(y) > 0, '%d words instead of %d; %s' % (len(x), len(y), info)):
        return
    for p, q in zip(x, y):
        if isinstance(p, complex) and isinstance(q, complex):
            if not abs(p - q) <= rtol * abs(q) + 2e-7:
                mon.check(name, p != p and q != q, '%s instead of %s; %s' % (p, q, info))
                return
        elif p != q:
            mon.check(name, False, '%s instead of %s; %s' % (p, q, info))
            return
    mon.seen(name)


def same_hdf5(mon, name, f, g, info):
    import h5py
    with h5py.File(f, 'r') as a, h5py.File(g, 'r') as b:
        if mon.check(name, set(a.keys()) == set(b.keys()), '%s %s; %s' % (list(a.keys()), list(b.keys()), info)):
            for k in a.keys():
                mon.close(name, a[k][()], b[k][()], rtol=1e-12, info='%s %s' % (k, info))


# requests: name -> (arguments, file, how the Python interface makes the file)
def requests(B, rng, npr):
    d = [[1., 0, 0], [0, 1., 1.], [.5, 0, 0], [.375, .01234, 1.], [1., .0625, .21875]][int(rng.integers(5))]
    extra = bool(rng.integers(2))
    at = int(rng.integers(1, npr + 1))
    R = {
        'sd': (['-sd', 'F'], lambda a, f: a.write_power_spectrum_full(f)),
        'sw': (['-sw', 'F'], lambda a, f: a.write_power_spectrum_wave_vector(f)),
        'sp': (['-sp', 'F'], lambda a, f: a.write_power_spectrum_phonon(f)),
        'svc': (['-svc', 'F'], lambda a, f: a.save_vc_hdf5(f)),
        'vq': (['--save_vq', 'F'], lambda a, f: a.save_vq(f)),
        'vc': (['--save_vc', 'F', str(at)], lambda a, f: a.save_vc(f, at)),
        'partials': (['--save_power_spectrum_partials', 'F'], lambda a, f: a.get_power_spectrum_partials(save_to_file=f)),
        'sfc': (['-sfc', 'F'], lambda a, f: a.write_renormalized_constants(f)),
        'bands': (['--save_band_structure', 'F'], lambda a, f: a.write_renormalized_phonon_dispersion_bands(filename=f)),
        'sdata': (['-sdata'] + ['--save_extra_properties'] * extra, lambda a, f: a.write_quasiparticles_data(f, with_extra=extra)),
        'smesh': (['-smesh'], lambda a, f: a.write_mesh_data(f)),
    }
    if B.positions:
        R['sad'] = (['-sad'] + [['%g' % x, '1/2'][x == .5 and int(rng.integers(2))] for x in d] + ['F'],
                    lambda a, f: a.write_atomic_displacements(d, f))
    return R


PRINTED = {
    'pa': (['-pa'], lambda a: a.phonon_individual_analysis()),
    'adp': (['-adp'], lambda a: a.get_anisotropic_displacement_parameters()),
    'thm': (['-thm'], lambda a: a.display_thermal_properties()),
    'thm_full': (['--thm_full'], lambda a: a.display_thermal_properties(from_power_spectrum=True)),
    'thm_norm': (['-thm', '--normalize_dos'], lambda a: a.display_thermal_properties(normalize_dos=True)),
    'thm_ref': (['-thm', '--thm_reference'], lambda a: a.display_thermal_properties(print_phonopy=True)),
    'average': (['-average'], lambda a: a.get_average_atomic_positions()),
}
FILES = {'sdata': 'quasiparticles_data.yaml', 'smesh': 'mesh_data.yaml'}


def wanted_lines(f, a):
    from checks.c12 import result_lines
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(a)
    t = result_lines(out.getvalue())
    t = [x for x in t.splitlines() if not x.startswith('Using mesh') and not x.startswith('Symmetrizing') and 'deprecated' not in x]
    heads = [i for i, x in enumerate(t) if x.startswith('Thermal properties per')]
    return t[heads[0]:] if heads else t


def contains(mon, text, want, info):
    """the wanted block is printed, up to rounding of the last digit"""
    from checks.c12 import result_lines
    have = result_lines(text).splitlines()
    have = [x for x in have if not x.startswith('Using mesh') and not x.startswith('Symmetrizing') and 'deprecated' not in x]
    best = 0
    for i in range(len(have) - len(want) + 1):
        for j, w in enumerate(want):
            x, y = number_tokens(have[i + j]), number_tokens(w)
            ok = len(x) == len(y) and all(
                (abs(p - q) <= 2e-4 * max(1, abs(q)) or (p != p and q != q)) if isinstance(p, complex) and isinstance(q, complex) else p == q
                for p, q in zip(x, y))
            if not ok:
                if j > best:
                    best = j
                break
        else:
            mon.seen('printed')
            return
    mon.check('printed', False, 'not printed: %r (matched %d of %d lines); printed %r; %s' %
              (want[best][:150] if want else '', best, len(want), have[-12:], info))


def empty_fits(e):
    return isinstance(e, ValueError) and 'arange' in str(e)


def run(case, mon, rng, cr, qp, mdcase):
    symmetric = bool(rng.integers(2))
    B = build(rng, cr, qp, mdcase, symmetric)
    c = B.c
    npr = int(c.types().max()) + 1
    comm = cr.commensurate_q(c, B.sc)
    o = settings(B, rng, symmetric, comm, npr)
    if o.get('velocity_only'):
        B.positions = False
    R = requests(B, rng, npr)
    names = [str(x) for x in rng.permutation(sorted(R))[:int(rng.integers(2, 7))]]
    pr = [k for k in PRINTED if rng.integers(6) == 0 and (B.positions or k not in ('adp', 'average'))]
    if len([k for k in pr if k.startswith('thm')]) > 1:
        t = [k for k in pr if k.startswith('thm')]
        pr = [k for k in pr if k not in t[1:]]
    plots = [k for k in ('-pd', '-pw', '-pp') if rng.integers(8) == 0]
    args = arguments(B, o, rng)
    a2 = [[x if x != 'F' else 'cli_' + k for x in R[k][0]] for k in names] + [PRINTED[k][0] for k in pr] + [[x] for x in plots]
    rng.shuffle(a2)
    args += [y for x in a2 for y in x]
    info = ' '.join(str(x) for x in args) + ' [%s %d atoms, MD %s, fc %s%s]' % (B.fmt, c.n, B.sc, B.fsc, ' sets' if B.sets else '')
    try:
        text, code, g, curves = program('dynaphopy', args)
    except ValueError as e:
        if empty_fits(e):
            mon.count('refused_no_frequencies')
            return
        raise
    if not mon.check('exit_code', code in (0, None) and 'calculation' in g, '%s %s; %s' % (code, text[-300:], info)):
        return
    P = g['calculation'].parameters
    ref = api(B, o)
    Q = ref.parameters
    # one parameters object in a process: read what the program ended with before it is used again
    # (api() has reset it, so run the program's settings through its own copy)
    files = {}
    for k in names:
        f = FILES.get(k, 'cli_' + k)
        if mon.check('file', os.path.exists(f), 'no file of %s; %s' % (k, info)):
            os.rename(f, 'got_' + k)
            files[k] = 'got_' + k
    for k in names:
        if k not in files:
            continue
        a = api(B, o)
        with contextlib.redirect_stdout(io.StringIO()):
            R[k][1](a, 'api_' + k)
        if k == 'svc':
            same_hdf5(mon, 'file', files[k], 'api_' + k, k + '; ' + info)
        else:
            same_text(mon, 'file', tokens(files[k]), tokens('api_' + k), k + '; ' + info)
    heavy = any(k in names for k in ('sfc', 'bands', 'sdata', 'smesh')) or any(k.startswith('thm') for k in pr)
    mon.check('file', os.path.exists('renormalized_frequencies') == bool(o.get('saverf') and heavy), 'renormalized_frequencies; ' + info)
    for k in pr:
        contains(mon, text, wanted_lines(PRINTED[k][1], api(B, o)), k + '; ' + info)
    for k in plots:
        a = api(B, o)
        with contextlib.redirect_stdout(io.StringIO()):
            y = {'-pd': a.get_power_spectrum_full, '-pw': a.get_power_spectrum_wave_vector, '-pp': a.get_power_spectrum_phonon}[k]()
            x = a.get_frequency_range()
        y = np.array(y).reshape(len(x), -1)
        for j in range(y.shape[1]):
            hit = [z for z in curves if z[0].shape == x.shape and z[1].shape == x.shape and np.allclose(z[0], x, atol=1e-9) and
                   np.allclose(z[1], y[:, j], rtol=1e-6, atol=1e-9 * abs(y).max())]
            mon.check('plotted', len(hit) > 0, '%s curve %d of %d plotted; %s' % (k, j, len(curves), info))
    # the same requests one by one
    base = args[:len(args) - sum(len(x) for x in a2)]
    for k in [str(x) for x in rng.permutation(names)[:2]]:
        if k not in files:
            continue
        with contextlib.suppress(ValueError):
            program('dynaphopy', base + [x if x != 'F' else 'alone_' + k for x in R[k][0]])
            f = FILES.get(k, 'alone_' + k)
            if k == 'svc':
                same_hdf5(mon, 'separate_runs', files[k], f, k + '; ' + info)
            else:
                same_text(mon, 'separate_runs', tokens(files[k]), tokens(f), k + '; ' + info)
    # the settings it ends with
    text, code, g, curves = program('dynaphopy', base)
    a = g['calculation']
    P = a.parameters
    got = {'q': np.array(a.get_reduced_q_vector(), float), 'range': np.array(a.get_frequency_range()), 'resolution': P.spectrum_resolution,
           'algorithm': P.power_spectra_algorithm, 'cf': P.number_of_coefficients_mem, 'fit': P.fitting_function,
           'symmetry': P.use_symmetry, 'MD': P.use_MD_cell_commensurate, 'fcsymm': P.symmetrize, 'project': P.project_on_atom,
           'silent': P.silent, 'symprec': P.symprec, 'saverf': P.save_renormalized_frequencies, 'nac': P.use_NAC,
           'steps': len(a.dynamic.velocity), 'mesh': np.array(P.mesh_phonopy), 'memmap': bool(a.dynamic._memmap)}
    if 'temperature' in o:
        got['temperature'] = a.get_temperature()
    b = api(B, o)
    n = min(o.get('read_to', B.n), B.n) - o.get('read_from', 1) + 1
    want = {'q': np.array([y % 1 if any(z < 0 for z in o.get('q', [0])) else y for y in o.get('q', (0, 0, 0))], float),
            'range': np.array(b.parameters.frequency_range), 'resolution': o.get('resolution', .05), 'algorithm': o.get('algorithm', 1),
            'cf': o.get('cf', 1000), 'fit': o.get('fit', 0), 'symmetry': not o.get('no_symmetry', False),
            'MD': o.get('MD_commensurate', False), 'fcsymm': o.get('fcsymm', False), 'project': o.get('project', -1),
            'silent': o.get('silent', False), 'symprec': o.get('symprec', 1e-5), 'saverf': o.get('saverf', False), 'nac': False,
            'steps': min(n, o.get('n', n)), 'mesh': np.array(B.mesh), 'memmap': o.get('memmap', False)}
    if 'temperature' in o:
        want['temperature'] = o['temperature']
    for k in want:
        mon.close('settings', np.array(got[k], float), np.array(want[k], float), rtol=1e-9, atol=1e-9, info='%s; %s' % (k, info))
    mon.nontrivial(info)
    mon.observe(command=info[:180])


def generated(case, mon, rng, cr, qp, mdcase):
    from dynaphopy.interface import iofile
    import dynaphopy.generate_cell as gen
    B = build(rng, cr, qp, mdcase)
    dim = [int(x) for x in rng.permutation([1, int(rng.integers(1, 3)), 1])]
    dims = ['--dim'] + [str(x) for x in dim] if dim != [1, 1, 1] or rng.integers(2) else []
    what = case['seed'] % 3
    seed = int(rng.integers(1 << 30))
    if what == 0:
        T = float(np.round(rng.uniform(20, 500), 1))
        args = ['input', '--generate_trajectory', '1.5', '0.01', repr(T)] + dims + ['--silent', '-sv', 'out.h5', '-psm', '2', '--resolution',
                                                                                 '0.5', '-r', '0', '15', '-sd', 'full'] + ['--memmap'] * int(rng.integers(2))
        info = ' '.join(args)
        text, code, g, curves = program('dynaphopy', args, seed)
        if not mon.check('exit_code', code in (0, None) and os.path.exists('out.h5'), text[-300:] + info):
            return
        qp.reset_parameters()
        np.random.seed(seed)
        with cr.quiet():
            d = iofile.generate_test_trajectory(structure(B), total_time=1.5, time_step=.01, temperature=T, supercell=dim, silent=True)
            a = qp.make(d, power_spectra_algorithm=2, spectrum_resolution=.5, frequency_range=np.arange(0, 15.5, .5))
            a.save_velocity_hdf5('want.h5')
            a.write_power_spectrum_full('want')
        same_hdf5(mon, 'generated', 'out.h5', 'want.h5', info)
        same_text(mon, 'generated', tokens('full'), tokens('want'), info)
        mon.check('generated', list(d.get_supercell_matrix()) == dim, info)
    else:
        kind = ['-c_poscar', '-c_lammps'][what - 1]
        args = ['input', kind, 'out'] + dims
        info = ' '.join(args)
        text, code, g, curves = program('dynaphopy', args)
        if not mon.check('exit_code', code in (0, None) and os.path.exists('out'), text[-300:] + info):
            return
        with cr.quiet():
            want = gen.generate_VASP_structure(structure(B), scaled=True, supercell=dim) if what == 1 else \
                gen.generate_LAMMPS_structure(structure(B), supercell=dim)
        same_text(mon, 'supercell_file', tokens('out'), want, info)
        if what == 1:
            with cr.quiet():
                s = iofile.read_from_file_structure_poscar('out')
            mon.close('supercell_file', s.get_cell(), B.c.super_cell(dim), rtol=1e-8, info=info)
            mon.check('supercell_file', s.get_number_of_atoms() == B.c.n * np.prod(dim), info)
    mon.nontrivial(info, str(B.c.elements))
    mon.observe(command=info)


def reload_(case, mon, rng, cr, qp, mdcase):
    """what one run saved is loaded by another"""
    B = build(rng, cr, qp, mdcase)
    c = B.c
    npr = int(c.types().max()) + 1
    comm = cr.commensurate_q(c, B.sc)
    o = {'ts': B.dt, 'q': [float(y) % 1 for y in comm[int(rng.integers(len(comm)))]], 'range': [0., float(np.round(B.fmax * 1.3, 1))],
         'resolution': .1, 'algorithm': int(rng.choice([1, 2])), 'cf': 20, 'silent': True, 'no_symmetry': True}
    if rng.integers(2):
        o['read_from'] = int(rng.integers(1, 40))
    if rng.integers(2):
        o['n'] = int(rng.integers(100, 160))
    args = arguments(B, o, rng)
    info = ' '.join(args) + ' [%s]' % B.fmt
    text, code, g, curves = program('dynaphopy', args + ['--velocity_only'] * (B.fmt == 'lammps_v') + ['-sv', 'all.h5', '-svc', 'vc.h5', '-sd', 'sd', '-sw', 'sw', '-sp', 'sp'])
    if not mon.check('exit_code', code in (0, None) and os.path.exists('sw'), text[-200:] + info):
        return
    o2 = {k: v for k, v in o.items() if k not in ('read_from', 'n', 'ts')}
    B.load = True
    B.md = 'vc.h5'
    o3 = {k: v for k, v in o2.items() if k not in ('q', 'no_symmetry')}
    program('dynaphopy', arguments(B, o3, rng) + ['-sw', 'sw1', '-sp', 'sp1'])
    for k in ('sw', 'sp'):
        same_text(mon, 'loaded_projection', tokens(k + '1'), tokens(k), '%s; %s' % (k, info))
    o3['n'] = int(rng.integers(60, 95))
    program('dynaphopy', arguments(B, o3, rng) + ['-sw', 'sw3', '-sp', 'sp3'])
    with cr.quiet():
        a = api(B, o3)
        a.write_power_spectrum_wave_vector('sw4')
        a.write_power_spectrum_phonon('sp4')
    for k in ('sw', 'sp'):
        same_text(mon, 'loaded_projection', tokens(k + '3'), tokens(k + '4'), '%s, last steps; %s' % (k, info))
    B.md = 'all.h5'
    program('dynaphopy', arguments(B, o2, rng) + ['-sw', 'sw2', '-sp', 'sp2', '-sd', 'sd2'])
    for k in ('sw', 'sp', 'sd'):
        same_text(mon, 'loaded_data', tokens(k + '2'), tokens(k), '%s; %s' % (k, info))
    mon.nontrivial(info)
    mon.observe(command=info)


def smoothed(x, y, f):
    """local linear fits, tricube weights vanishing at the distance of the f n-th neighbour"""
    out = np.empty_like(y)
    n = len(x)
    for i in range(n):
        d = np.abs(x - x[i])
        h = np.sort(d)[min(n - 1, int(np.ceil(f * n)))]
        w = np.where(d < h * (1 - 1e-3), (1 - (d / h) ** 3) ** 3, 0.)
        if (w > 0).sum() == 1:
            out[i] = y[i]
            continue
        a = np.sqrt(w)[:, None] * np.array([np.ones(n), x - x[i]]).T
        out[i] = np.linalg.lstsq(a, np.sqrt(w)[:, None] * y, rcond=None)[0][0]
    return out


def fitdata(case, mon, rng, cr, qp, mdcase):
    import dynaphopy.analysis.fitting as fitting
    from dynaphopy.interface import iofile
    n = int(rng.integers(60, 200))
    m = int(rng.integers(1, 7))
    f = np.linspace(0, 20, n)
    data = np.array([rng.uniform(.5, 3) / (1 + ((f - rng.uniform(3, 17)) / rng.uniform(.3, 1.5)) ** 2) for _ in range(m)]).T
    data = data + .01 * rng.random(data.shape)
    iofile.write_curve_to_file(f, data, 'spectra')
    tb = np.array([[float(y) for y in x.split()] for x in open('spectra')])
    groups = [[i + 1] for i in range(m)]
    bi = []
    if rng.integers(2):
        groups = []
        for _ in range(int(rng.integers(1, 4))):
            groups.append([int(y) + 1 for y in rng.permutation(m)[:int(rng.integers(1, m + 1))]])
        text = ' , '.join(' '.join(str(y) for y in gr) for gr in groups) if rng.integers(2) else \
            ','.join(' '.join(str(y) for y in gr) for gr in groups)
        bi = ['-bi', text] if rng.integers(2) else ['-bi'] + text.split(' ')
    ff = int(rng.integers(3))
    smooth = rng.integers(3) == 0
    width = .02
    if smooth:
        bi = bi + [str(rng.choice(['-sm', '--smooth']))]
        if rng.integers(2):
            width = float(rng.choice([.03, .05, .1, .3, .66, 1.]))
            bi = bi + ['-f', str(width)]
    args = ['spectra'] + (['--silent']) + (['--fitting_function', str(ff)] if ff or rng.integers(2) else []) + ['-s', 'out'] + bi
    info = ' '.join(args)
    text, code, g, curves = program('fitdata', args)
    if not mon.check('exit_code', code in (0, None) and os.path.exists('out'), '%s %s' % (text[-300:], info)):
        return
    want = np.array([tb[:, gr].mean(axis=1) for gr in groups]).T
    if smooth:
        want = smoothed(tb[:, 0], want, width)
        mon.count('smoothed')
    got = np.array([[float(y) for y in x.split()] for x in open('out')])
    if mon.check('fitdata_saved', got.shape == (n, 1 + len(groups)), '%s rows and columns instead of %s; %s' % (got.shape, (n, 1 + len(groups)), info)):
        mon.close('fitdata_saved', got[:, 0], tb[:, 0], atol=1e-4, info=info)
        mon.close('fitdata_saved', got[:, 1:], want, rtol=1e-8, info=info)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fitting.phonon_fitting_analysis(want, tb[:, 0], show_plots=False, fitting_function_type=ff, use_degeneracy=None)
    x, y = [[w for w in number_tokens(t)] for t in (text, out.getvalue())]
    if smooth and (width > .1 or ff == 1):   # nearly straight lines, asymmetric line shapes: fits follow the last digits
        x = y = []
    if mon.check('fitdata_fits', len(x) == len(y), '%d words instead of %d; %s' % (len(x), len(y), info)):
        bad = [(p, q) for p, q in zip(x, y) if not (p == q or (isinstance(p, complex) and isinstance(q, complex) and
                                                                (abs(p - q) <= 1e-3 * max(1e-2, abs(q)) or (p != p and q != q))))]
        mon.check('fitdata_fits', not bad, '%s; %s' % (bad[:3], info))
    mon.nontrivial(info, n, m)
    mon.observe(command=info)
