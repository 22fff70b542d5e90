"""C14  Memory-mapped analysis equals in-memory analysis and cleans up."""
import gc
import os

import numpy as np

RULE = ('random histories over several memory-mapped trajectories alive at once (LAMMPS positions/velocities, XDATCAR, OUTCAR, HDF5, generated '
        'in memory; windows, croppings, queries, spectra, deletions), each with an in-memory twin given the same operations; every answer '
        'is compared; after each deletion and at the end the directories are searched for backing files. Non-trivial: a distinct history')
ASSUMPTIONS = ['one process', 'the temporary directory is writable or not a directory at all']
MONITORS = ['loaded_data', 'query', 'spectrum', 'others_undisturbed', 'files_of_dead_owner_gone', 'directory_clean', 'backing_files_seen', 'inputs_untouched']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 300


def generate(tier, seed):
    k = 3 if tier == 'quick' else 22
    return [{'kind': ('tempdir', 'here', 'missing')[i % 3], 'seed': seed * 401 + i} for i in range(72 * k)]


def mapped(d):
    out = {}
    for name in ('_velocity', '_trajectory', '_scaled_trajectory', '_relative_trajectory', '_velocity_mass_average'):
        f = getattr(getattr(d, name), 'filename', None)
        if f is not None:
            out[name] = str(f)
    return out


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, mdcase, qp
    from dynaphopy.interface import iofile
    from checks.c13 import DQ
    rng = np.random.default_rng(case['seed'])
    os.mkdir('tmp')
    os.mkdir('in')
    here = os.getcwd()
    old = os.environ.pop('DYNAPHOPY_TEMPDIR', None)
    if case['kind'] == 'tempdir':
        os.environ['DYNAPHOPY_TEMPDIR'] = os.path.join(here, 'tmp') if rng.integers(2) else 'tmp'
    elif case['kind'] == 'missing':
        os.environ['DYNAPHOPY_TEMPDIR'] = os.path.join(here, 'not_there')
    try:
        history(case, mon, rng, cr, mdcase, qp, iofile, DQ, here)
    finally:
        os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        if old is not None:
            os.environ['DYNAPHOPY_TEMPDIR'] = old


def listing(here):
    out = set()
    for root, _, files in os.walk(here):
        if os.path.basename(root) == 'in':
            continue
        out |= {os.path.join(root, f) for f in files}
    return out


def history(case, mon, rng, cr, mdcase, qp, iofile, DQ, here):
    inputs = []
    lengthy = rng.integers(7) == 0
    for i in range(1 if lengthy else 2):
        if lengthy:
            k = int(rng.integers(1050, 2600))
            c, sc, n, pos = mdcase.small_case(rng, max_atoms=3, minframes=k, maxframes=k + 1)
        else:
            c, sc, n, pos = mdcase.small_case(rng, max_atoms=14, minframes=12, maxframes=40)
        pos = c.super_positions(sc) + rng.normal(size=pos.shape) * .1 + np.dot(rng.integers(-1, 2, size=pos.shape), c.super_cell(sc))
        fc = qp.springs(c, sc, rng)
        dt = float(rng.choice([.001, .002]))
        vel = rng.normal(size=pos.shape) * 5
        for fmt in ('lammps_x', 'lammps_v', 'xdatcar', 'outcar'):
            k = mdcase.write(rng, fmt, c, sc, pos, os.path.join('in', '%s%d' % (fmt, i)), vel=vel, dt=dt, regular=True)
            inputs.append((fmt, k, c, sc, n, fc, dt))
        h5 = os.path.join('in', 'h5%d' % i)
        what = int(rng.integers(3))
        iofile.save_data_hdf5(h5, np.arange(n) * dt, sc, trajectory=None if what == 1 else pos.astype(complex),
                              velocity=None if what == 0 else vel.astype(complex))
        k = mdcase.Case()
        k.path, k.kind = h5, 'v' if what == 1 else 'x'
        inputs.append(('hdf5', k, c, sc, n, fc, dt))
        inputs.append(('generated', k, c, sc, n, fc, dt))
    before = {p: open(os.path.join('in', p), 'rb').read() for p in os.listdir('in')}
    slots, log = [], []

    def create():
        fmt, k, c, sc, n, fc, dt = inputs[int(rng.integers(len(inputs)))]
        first = int(rng.integers(1, n // 2)) if rng.integers(2) else 1
        last = int(rng.integers(first + 5, n + 4))
        steps = int(rng.integers(4, n)) if rng.integers(3) == 0 else None
        out = []
        for memmap in (True, False):
            s = cr.to_structure(c, fc, sc)
            if fmt == 'hdf5':
                d = iofile.initialize_from_hdf5_file(k.path, s, initial_cut=first, final_cut=last, memmap=memmap)
            elif fmt == 'generated':
                d = iofile.generate_test_trajectory(s, supercell=sc, total_time=20 * dt, time_step=dt, silent=True, memmap=memmap)
            else:
                d = mdcase.reader(fmt)(k.path, structure=s, time_step=None if fmt == 'outcar' else dt, initial_cut=first, end_cut=last,
                                       last_steps=steps, memmap=memmap)
            out.append(d)
        log.append('create %s %s-%s last %s' % (fmt, first, last, steps))
        v_only = (fmt == 'lammps_v') or (fmt == 'hdf5' and k.kind == 'v')
        slots.append({'m': out[0], 'r': out[1], 'v': v_only, 'fmt': fmt, 'files': set(mapped(out[0]).values()), 'c': c, 'sc': sc})
        compare(slots[-1], 'loaded_data')

    def compare(sl, name, which=None):
        for nm in (which or ['time', 'trajectory', 'velocity', 'energy']):
            if sl['v'] and nm in needs_pos:
                continue
            a, b = DQ[nm](sl['m']), DQ[nm](sl['r'])
            if a is None or b is None:
                mon.check(name, a is None and b is None, '%s %s: %r %r' % (sl['fmt'], nm, a, b))
                continue
            a, b = np.array(a), np.array(b)
            if a.dtype.kind in 'US':
                mon.check(name, (a == b).all(), nm)
            else:
                mon.close(name, a, b, rtol=1e-11, atol=1e-13, info='%s %s after %s' % (sl['fmt'], nm, '; '.join(log)), mech='%s:%s' % (name, nm))

    needs_pos = {'trajectory', 'relative', 'msd', 'msd_average', 'average', 'average_unit', 'projection_x', 'projection_s'}

    def note(sl):
        f = mapped(sl['m'])
        sl['files'] |= set(f.values())
        mon.seen('backing_files_seen', len(f))

    with cr.quiet():
        create()
        for _ in range(int(rng.integers(6, 14))):
            op = rng.choice(['create', 'query', 'query', 'query', 'crop', 'spectrum', 'delete'])
            if op == 'create' and len(slots) < 4 or not slots:
                create()
                continue
            i = int(rng.integers(len(slots)))
            sl = slots[i]
            if op == 'query':
                which = [str(x) for x in rng.choice(sorted(DQ), 4)]
                log.append('query %d %s' % (i, ','.join(which)))
                compare(sl, 'query', which)
                note(sl)
            elif op == 'crop':
                m = int(rng.integers(3, max(4, len(sl['m'].get_time()) + 2)))
                log.append('crop %d to %d' % (i, m))
                sl['m'].crop_trajectory(m)
                sl['r'].crop_trajectory(m)
                compare(sl, 'query')
                note(sl)
            elif op == 'spectrum':
                alg = int(rng.integers(4))
                last = int(rng.integers(4, 20)) if rng.integers(2) else None
                log.append('spectrum %d algorithm %d last %s' % (i, alg, last))
                qs = [f.tolist() for f in cr.commensurate_q(sl['c'], sl['sc'])]
                q = qs[int(rng.integers(len(qs)))]
                res = []
                step = float(np.asarray(sl['m'].get_time_step_average()))
                nmax = len(sl['m'].get_time()) if last is None else min(last, len(sl['m'].get_time()))
                for d in (sl['m'], sl['r']):
                    qq = qp.make(d, last_steps=last, mesh_phonopy=(3, 3, 3))
                    qq.parameters.power_spectra_algorithm = alg
                    qq.parameters.number_of_coefficients_mem = max(1, min(5, nmax - 2))
                    qq.parameters.correlation_function_step = 1 + nmax // 40
                    qq.parameters.frequency_range = np.linspace(.3, 40, 60)
                    qq.parameters.reduced_q_vector = np.array(q)
                    res.append((np.array(qq.get_power_spectrum_full()), np.array(qq.get_power_spectrum_phonon()), np.array(qq.get_vc())))
                for a, b in zip(*res):
                    mon.close('spectrum', a, b, rtol=1e-9, info='; '.join(log))
                del qq, d
                note(sl)
            elif op == 'delete':
                note(sl)
                files = sl['files']
                log.append('delete %d' % i)
                del slots[i]
                sl.clear()
                del sl
                gc.collect()
                left = [f for f in files if os.path.exists(f)]
                mon.check('files_of_dead_owner_gone', not left, '%s left after %s' % (left, '; '.join(log)))
                for other in slots:
                    compare(other, 'others_undisturbed')
                continue
            del sl
        for i, sl in enumerate(slots):
            compare(sl, 'others_undisturbed', [str(x) for x in rng.permutation(sorted(DQ))])
            note(sl)
        allfiles = set().union(*[x['files'] for x in slots]) if slots else set()
        sl = other = None
        for x in slots:
            x.clear()
        x = None
        del slots[:]
        gc.collect()
        left = [f for f in allfiles if os.path.exists(f)]
        mon.check('files_of_dead_owner_gone', not left, '%s left after %s' % (left, '; '.join(log)))
        mon.check('directory_clean', not listing(here), 'left behind %s after %s' % (sorted(listing(here)), '; '.join(log)))
    mon.check('inputs_untouched', before == {p: open(os.path.join('in', p), 'rb').read() for p in os.listdir('in')}, 'input changed')
    mon.nontrivial(*log)
    mon.count('operations', len(log))
    mon.observe(where=case['kind'], history='; '.join(log))
