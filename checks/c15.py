"""C15  Trajectory readers return exactly the requested frames and times."""
import os

import numpy as np

RULE = ('VASP OUTCAR and XDATCAR files and LAMMPS dumps (positions, velocities, various column layouts, origins, tilted and rotated boxes, '
        'step numbering, precision, header per frame) written from random frames; every reading window (first, last, last n, memory '
        'mapping) on them; every returned frame, time, energy and cell is compared with the record that was written. Recognition of the '
        'format within detection windows of several lengths. Same motion through all formats. Non-trivial: a distinct layout and window')
ASSUMPTIONS = ['atoms are written in the same order in every frame', 'constant cell', 'time of OUTCAR starts at zero']
MONITORS = ['frames', 'times', 'cell', 'energy', 'format_detected', 'same_in_all_formats', 'step_of_file', 'file_untouched', 'order_template']
MIN_NONTRIVIAL = 60
CPU_LIMIT = 200


def generate(tier, seed):
    k = 3 if tier == 'quick' else 22
    return ([{'kind': 'window', 'fmt': f, 'seed': seed * 311 + i} for i in range(60 * k) for f in ('lammps_x', 'lammps_v', 'xdatcar', 'outcar')] +
            [{'kind': 'detect', 'seed': seed * 313 + i} for i in range(40 * k)] +
            [{'kind': 'long', 'fmt': f, 'seed': seed * 317 + i} for i in range(k) for f in ('lammps_x', 'xdatcar', 'outcar')] +
            [{'kind': 'formats', 'seed': seed * 331 + i} for i in range(30 * k)])


def judge(mon, k, d, sel, info):
    from lib import mdcase
    want = k.frames[sel]
    with quiet():
        got = np.asarray(mdcase.content(k, d))
    mon.close('frames', got, want, rtol=0, atol=2e-9 * max(1, np.abs(want).max(initial=0)), info=info, mech='%s: frames' % k.fmt)
    if k.kind == 'v':
        with quiet():
            mon.check('frames', d._trajectory is None and d._scaled_trajectory is None, 'velocities read as positions ' + info)
    t = np.asarray(d.get_time(), float)
    tw = k.times[sel]
    if k.fmt == 'outcar':
        tw = tw - (tw[0] if len(tw) else 0)
        t = t - (t[0] if len(t) else 0)
    mon.close('times', t, tw, rtol=1e-12, atol=1e-12, info=info, mech='%s: times' % k.fmt)
    if len(t) > 1:
        step = float(np.asarray(d.get_time_step_average()))
        mon.check('step_of_file', abs(step - (tw[1] - tw[0])) <= 1e-8, '%r instead of %r %s' % (step, tw[1] - tw[0], info))
    mon.close('cell', np.array(d.get_supercell(), float), k.cell, rtol=k.cell_tol, info=info, mech='%s: cell' % k.fmt)
    if k.energy is not None:
        mon.close('energy', np.array(d.get_energy(), float), k.energy[sel], rtol=0, atol=1e-8, info=info)


def quiet():
    from lib import crystal as cr
    return cr.quiet()


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, mdcase
    from dynaphopy.interface import iofile
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'long':
        return long(case, mon, rng)
    if case['kind'] == 'detect':
        return detect(case, mon, rng)
    if case['kind'] == 'formats':
        return formats(case, mon, rng)
    c, sc, n, pos = mdcase.small_case(rng)
    s = cr.to_structure(c)
    k = mdcase.write(rng, case['fmt'], c, sc, pos, 'traj', vel=rng.normal(size=pos.shape) * 4)
    before = open('traj', 'rb').read()
    for _ in range(4):
        first = int(rng.integers(1, n + 1)) if rng.integers(3) else None
        last = int(rng.integers(first or 1, n + 3)) if rng.integers(3) else None
        steps = int(rng.integers(1, n + 2)) if rng.integers(3) == 0 else None
        memmap = bool(rng.integers(2)) and last is not None
        template = rng.permutation(pos.shape[1]) if rng.integers(4) == 0 else None
        a = {'memmap': memmap}
        if first is not None:
            a['initial_cut'] = first
        if last is not None:
            a['end_cut'] = last
        if steps is not None:
            a['last_steps'] = steps
        if template is not None:
            a['template'] = template
        sel = np.arange(n)[(first or 1) - 1:last]
        if steps is not None:
            sel = sel[-steps:]
        info = '%s: %s, %d frames, columns %s' % (k.fmt, {x: y for x, y in a.items() if x != 'template'}, n, getattr(k, 'columns', ''))
        dt = k.time_step if k.fmt != 'outcar' else [None, 77.0][int(rng.integers(2))]
        with cr.quiet():
            fn = iofile.get_trajectory_parser('traj') if rng.integers(2) else mdcase.reader(k.fmt)
            d = fn('traj', structure=s, time_step=dt, **a)
        if template is None:
            judge(mon, k, d, sel, info)
        else:
            with cr.quiet():
                got = np.asarray(mdcase.content(k, d))
            # the template gives for every atom of the file its place in the crystal
            mon.close('order_template', got[:, template], k.frames[sel], rtol=0, atol=2e-9 * max(1, np.abs(k.frames).max()), info=info)
        mon.nontrivial(k.fmt, getattr(k, 'columns', ''), a.get('initial_cut'), last, steps, n, memmap, sc)
        mon.count('frames read', len(sel))
        del d
    mon.check('file_untouched', open('traj', 'rb').read() == before, 'trajectory file modified')
    mon.observe(fmt=k.fmt, frames=n, atoms=pos.shape[1], bytes=len(before))


def detect(case, mon, rng):
    """The right reader whatever the length of the file compared with the detection window."""
    from lib import crystal as cr, mdcase
    from dynaphopy.interface import iofile
    for fmt in ('lammps_x', 'lammps_v', 'xdatcar', 'outcar'):
        c, sc, n, pos = mdcase.small_case(rng)
        k = mdcase.write(rng, fmt, c, sc, pos, 'some_file', vel=pos)
        size = len(k.text)
        keys = {'lammps_x': ['ITEM: TIMESTEP', 'ITEM: NUMBER OF ATOMS', 'ITEM: BOX BOUNDS'], 'xdatcar': ['Direct configuration', '='],
                'outcar': ['NIONS', 'POMASS', 'direct lattice vectors']}
        keys = keys.get(fmt, keys['lammps_x'])
        need = max(k.text.find(x) + len(x) for x in keys)
        for w in (need, need + 1, size - 1, size, size + 1, size + 5000, 1000000):
            if w < need or w < 1:
                continue
            with cr.quiet():
                fn = iofile.get_trajectory_parser('some_file', bytes_to_check=w)
            mon.check('format_detected', fn is mdcase.reader(fmt), '%s recognised as %r in the first %d of %d bytes' %
                      (fmt, getattr(fn, '__name__', fn), w, size), mech='format_detected')
            mon.nontrivial(fmt, w, size)
        # a long header (k-points, echo of the potentials) before everything which tells the format
        if fmt == 'outcar':
            pad = ''.join('  k-point %6d :       0.1250    0.1250    %.4f\n' % (i, rng.uniform()) for i in range(int(rng.integers(100, 18000))))
            cut = k.text.find('\n', k.text.find('NIONS')) + 1
            where = [0, cut][int(rng.integers(2))]
            with open('padded', 'w') as f:
                f.write(k.text[:where] + pad + k.text[where:])
            if where + len(pad) + need < 1000000:
                with cr.quiet():
                    fn = iofile.get_trajectory_parser('padded')
                mon.check('format_detected', fn is mdcase.reader(fmt), 'OUTCAR with %d bytes of header recognised as %r' %
                          (len(pad), getattr(fn, '__name__', fn)), mech='format_detected')
    for text in ('no trajectory\n' * 50, 'POSCAR\n1.0\n1 0 0\n0 1 0\n0 0 1\nSi\n1\nDirect\n0 0 0\n', '# ITEM of NIONS\nPOMASS\n'):
        with open('other', 'w') as f:
            f.write(text)
        with cr.quiet():
            fn = iofile.get_trajectory_parser('other')
        mon.check('format_detected', fn is None, 'text without trajectory recognised as %r' % fn, mech='format_detected')


def long(case, mon, rng):
    """A file longer than the default detection window, read at its far end."""
    from lib import crystal as cr, mdcase
    from dynaphopy.interface import iofile
    fmt = case['fmt']
    while True:
        c, sc, n, pos = mdcase.small_case(rng, max_atoms=24)
        if pos.shape[1] >= 12:
            break
    nat = pos.shape[1]
    n = int(1400000 / (nat * 45)) + 1
    pos = c.super_positions(sc) + rng.normal(size=(n, nat, 3)) * .1
    k = mdcase.write(rng, fmt, c, sc, pos, 'long', digits=8)
    mon.check('format_detected', len(k.text) > 1000000, 'short file')
    s = cr.to_structure(c)
    with cr.quiet():
        fn = iofile.get_trajectory_parser('long')
    mon.check('format_detected', fn is mdcase.reader(fmt), '%s of %d bytes recognised as %r' % (fmt, len(k.text), fn), mech='format_detected')
    for first, last, steps in ((None, None, None), (n - 5, None, None), (n // 2, n - 1, 7), (None, None, 3)):
        a = {}
        if first:
            a['initial_cut'] = first
        if last:
            a['end_cut'] = last
        if steps:
            a['last_steps'] = steps
        sel = np.arange(n)[(first or 1) - 1:last]
        if steps is not None:
            sel = sel[-steps:]
        with cr.quiet():
            d = mdcase.reader(fmt)('long', structure=s, time_step=k.time_step, **a)
        judge(mon, k, d, sel, 'long %s %s of %d' % (fmt, a, n))
        mon.nontrivial(fmt, n, first, last, steps)


def formats(case, mon, rng):
    """One motion through all formats."""
    from lib import crystal as cr, mdcase
    c, sc, n, pos = mdcase.small_case(rng, minframes=6)
    pos = c.super_positions(sc) + rng.normal(size=pos.shape) * .1
    dt = float(rng.choice([.001, .002, .0005]))
    vel = np.gradient(pos, dt, axis=0)
    res = {}
    for fmt in ('lammps_x', 'xdatcar', 'outcar', 'lammps_v'):
        s = cr.to_structure(c)
        p = pos + (np.dot(rng.integers(-1, 2, size=(n, pos.shape[1], 3)), c.super_cell(sc)) if fmt in ('lammps_x', 'xdatcar') else 0)
        k = mdcase.write(rng, fmt, c, sc, p, 'f_' + fmt, vel=vel, digits=8, dt=dt, regular=True)
        with cr.quiet():
            d = mdcase.reader(fmt)('f_' + fmt, structure=s, time_step=None if fmt == 'outcar' else dt)
            res[fmt] = (None if fmt == 'lammps_v' else np.array(d.get_relative_trajectory()), np.array(d.velocity),
                        np.array(d.get_velocity_mass_average()), float(d.get_time_step_average()), np.array(d.get_supercell_matrix()))
    ref = res['lammps_x']
    big = np.abs(c.super_cell(sc)).max()
    for fmt, r in res.items():
        if r[0] is not None:
            mon.close('same_in_all_formats', r[0], pos - c.super_positions(sc), rtol=0, atol=1e-7 * big, info='displacements ' + fmt, mech='same displacements')
        mon.close('same_in_all_formats', r[1], ref[1], rtol=0, atol=1e-7 * big / dt, info='velocities ' + fmt, mech='same velocities')
        mon.close('same_in_all_formats', r[2], ref[2], rtol=0, atol=2e-6 * big / dt, info='mass-weighted velocities ' + fmt, mech='same velocities')
        mon.close('same_in_all_formats', r[3], dt, rtol=1e-6, info='time step ' + fmt, mech='same time step')
        mon.close('same_in_all_formats', r[4], np.array(sc), rtol=0, info='cell ratio ' + fmt, mech='same cell')
    mon.nontrivial('formats', sc, n, c.elements)
