"""C27  A live LAMMPS run gives the motion LAMMPS computed, atom by atom."""
import sys

import numpy as np

RULE = ('live runs (generate_lammps_trajectory, --run_lammps) of a stand-in of the lammps module which plays a known motion of random crystals, '
        'laid out as LAMMPS does it (tags of `replicate`, local order changed by spatial sorting, triangular frame, wrapped coordinates, live '
        'arrays that are poisoned on close): positions, velocities, energies, times and cell of every frame against the motion played, the '
        'commands given, and the analysis against the one of the same motion handed over directly. Non-trivial: a distinct crystal, '
        'supercell, atom order and schedule')
ASSUMPTIONS = ['the stand-in behaves as documented for the lammps Python module (ids and coordinates in local order)',
               'the LAMMPS input uses metal units, the origin of the structure and thermal displacements below half the distance between sites']
MONITORS = ['positions', 'velocities', 'energies', 'times', 'cell', 'displacements', 'commands', 'analysis', 'command_line', 'velocity_only']
MIN_NONTRIVIAL = 50
CPU_LIMIT = 300


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return ([{'kind': 'live', 'seed': seed * 2711 + i} for i in range(110 * k)] +
            [{'kind': 'analysis', 'seed': seed * 2713 + i} for i in range(16 * k)] +
            [{'kind': 'cli', 'seed': seed * 2719 + i} for i in range(16 * k)])


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, qp, mdfiles, fake_lammps
    from checks.c17 import shortest
    sys.modules['lammps'] = fake_lammps
    from dynaphopy.interface.lammps_link import generate_lammps_trajectory
    rng = np.random.default_rng(case['seed'])
    big = case['kind'] != 'live'
    while True:
        c = cr.named_crystal(cr.NAMED[int(rng.integers(len(cr.NAMED)))]) if rng.integers(3) == 0 else \
            cr.random_crystal(rng, outside=rng.integers(5) == 0)
        sc = [int(v) for v in rng.integers(1, 4, 3)]
        nat = int(c.n * np.prod(sc))
        if 2 <= nat <= (16 if big else 60):
            break
    # the input file holds some of the supercell already
    f = [int(rng.choice([d for d in range(1, s + 1) if s % d == 0])) if rng.integers(3) == 0 else 1 for s in sc]
    rep = [int(a // b) for a, b in zip(sc, f)]
    tri, R = mdfiles.lammps_cell(c.cell)
    dmin = shortest(c)
    modes = rng.normal(size=(2, 3, nat, 3))
    freq = rng.uniform(.5, 12, 3)
    ph = rng.uniform(0, 2 * np.pi, (2, 3))
    amp = float(rng.choice([.02, .05, .12])) * dmin / np.abs(modes).sum(axis=1).max() / 1.8

    def motion(t, created, tot):
        if list(tot) != sc:         # before `replicate`
            n = int(c.n * np.prod(tot))
            return np.zeros((n, 3)), np.ones((n, 3))
        w = 2 * np.pi * freq
        m, p = modes[int(created)], ph[int(created)]
        return (amp * np.einsum('k,kij', np.cos(w * t + p), m), amp * np.einsum('k,kij', -w * np.sin(w * t + p), m))

    e0 = rng.normal() * 100
    energy = lambda s: e0 + .001 * s * s + np.sin(s)
    resting = bool(rng.integers(3) == 0)
    partly = '' if resting else str(rng.choice(['', '', 'component', 'first', 'last']))
    origin = rng.uniform(-3, 3, 3) if rng.integers(2) else np.zeros(3)
    scene = fake_lammps.Scene(rng, c, f, R, tri, motion, energy, origin, rng.permutation(int(c.n * np.prod(f))),
                              sort=bool(rng.integers(4)), wrap=bool(rng.integers(3)), resting=resting, partly=partly)
    fake_lammps.SCENE = scene
    fake_lammps.LOG.clear()
    dt = float(rng.choice([.001, .002, .0005, .0025, .003, .0007]))
    samp = int(rng.choice([1, 1, 2, 5, 7]))
    n = int(rng.integers(60, 200)) if case['kind'] == 'analysis' else int(rng.integers(2, 40))
    if case['kind'] == 'cli':
        samp = 1
    relax_steps = int(rng.choice([0, 1, 3, 10, 29, 57]))
    total, relax = float('%.10g' % (n * samp * dt)), float('%.10g' % (relax_steps * dt))
    temperature = float(rng.choice([50., 300., 777.])) if rng.integers(2) else None
    vo = bool(rng.integers(4) == 0)
    rot = np.abs(c.cell - tri).max() > 1e-9
    fc = qp.springs(c, sc, rng, 3.6) if case['kind'] == 'analysis' else None
    s = cr.to_structure(c, fc, sc)
    info = 'sc %s file %s dt %g x%d n %d relax %d rotated %s sort %s wrap %s velocity_only %s T %s' % (
        sc, f, dt, samp, n, relax_steps, rot, scene.sort, scene.wrap, vo, temperature)
    mon.nontrivial(c.cell.round(6).tolist(), sc, f, n, samp, relax_steps, dt, vo, temperature)
    mon.observe(info=info)
    if case['kind'] == 'cli':
        d = cli(mon, rng, cr, c, sc, rep, total, dt, relax, temperature, vo)
    else:
        with cr.quiet():
            d = generate_lammps_trajectory(s, 'in.lammps', total_time=total, time_step=dt, relaxation_time=relax,
                                           silent=bool(rng.integers(2)), supercell=rep if rng.integers(2) else tuple(rep), velocity_only=vo,
                                           memmap=bool(rng.integers(4) == 0), temperature=temperature,
                                           lammps_log=bool(rng.integers(2)), sampling_interval=samp)
    ses = fake_lammps.LOG[-1]
    cmds = ses.commands
    at = dt * (relax_steps + samp * (1 + np.arange(n)))
    want = [motion(t, ses.created, sc) for t in at]
    disp = np.array([w[0] for w in want])
    vel = np.array([w[1] for w in want])
    sites, cell = c.super_positions(sc), c.super_cell(sc)
    big_len = np.abs(cell).max()
    # commands: what was asked of LAMMPS
    mon.check('commands', 'file in.lammps' in cmds and ses.dt == dt and 'replicate %d %d %d' % tuple(rep) in [' '.join(x.split()) for x in cmds],
              'commands %s for %s' % (cmds[:6], info))
    nvt = [x.split() for x in cmds if x.startswith('fix')]
    mon.check('commands', (len(nvt) == 0) if temperature is None else
              (len(nvt) == 1 and 'nvt' in nvt[0] and [float(v) for v in nvt[0][nvt[0].index('temp') + 1:][:2]] == [temperature] * 2),
              'thermostat %s for temperature %s' % (nvt, temperature))
    vcmd = [x.split() for x in cmds if x.startswith('velocity')]
    mon.check('commands', bool(vcmd) == resting, 'initial velocities %s although resting is %s' % (vcmd, resting))
    if vcmd:
        t0 = temperature if temperature is not None else 100
        mon.check('commands', [float(x[x.index('create' if 'create' in x else 'scale') + 1]) for x in vcmd] == [t0] * len(vcmd),
                  'initial velocities %s for temperature %s' % (vcmd, temperature))
    mon.check('commands', ses.closed and ses.steps == relax_steps + n * samp, '%d steps run instead of %d %s' % (ses.steps, relax_steps + n * samp, info))
    # the trajectory
    t = np.array(d.get_time(), float)
    if not mon.check('times', len(t) == n, '%d times for %d frames %s' % (len(t), n, info)):
        return
    mon.close('times', np.diff(t), np.full(n - 1, dt * samp), rtol=1e-9, info=info)
    mon.close('times', d.get_time_step_average(), dt * samp, rtol=1e-9, info=info)
    mon.close('cell', d.get_supercell(), cell, rtol=0, atol=1e-9 * big_len, info=info)
    with cr.quiet():
        mon.check('cell', list(d.get_supercell_matrix()) == sc, 'MD cell taken as %s, it is %s' % (list(d.get_supercell_matrix()), sc))
    mon.close('velocities', np.asarray(d.velocity), vel, rtol=1e-9, info=info)
    en = np.asarray(d._energy, float)
    mon.close('energies', en, [energy(relax_steps + samp * (k + 1)) for k in range(n)], rtol=1e-12, info=info)
    if vo:
        try:
            with cr.quiet():
                left = d.trajectory
        except SystemExit:
            left = None
        mon.check('velocity_only', left is None, 'positions kept although velocities only were asked')
    else:
        dev = np.dot(np.asarray(d.trajectory).real - (sites + disp), np.linalg.inv(cell))
        mon.close('positions', np.dot(dev - np.round(dev), cell), np.zeros_like(disp), rtol=0, atol=1e-9 * big_len, info=info)
        with cr.quiet():
            rel = np.asarray(d.get_relative_trajectory())
        mon.close('displacements', rel, disp, rtol=0, atol=1e-9 * big_len, info=info)
    if case['kind'] == 'analysis':
        ref = cr.to_dynamics(c, cr.to_structure(c, fc, sc), sc, disp=disp, velocity=vel, dt=dt * samp)
        alg = int(rng.integers(4))
        comm = cr.commensurate_q(c, sc)
        q = np.array(comm[int(rng.integers(len(comm)))], float)
        res = []
        for dd in (ref, d):
            x = qp.make(dd, power_spectra_algorithm=alg, use_symmetry=False)
            with cr.quiet():
                x.set_frequency_limits([0, min(15., .45 / (dt * samp))])
                x.set_spectra_resolution(.3)
                x.set_number_of_mem_coefficients(20)
                x.set_reduced_q_vector(q)
                out = [x.get_power_spectrum_full(), x.get_power_spectrum_wave_vector(), x.get_power_spectrum_phonon(), x.get_temperature()]
            res.append(out)
        for nm, a, b in zip(('full', 'wave vector', 'phonon', 'temperature'), *res):
            mon.close('analysis', b, a, rtol=1e-6 if alg != 1 else 1e-3, info='%s algorithm %d %s' % (nm, alg, info))


def cli(mon, rng, cr, c, sc, rep, total, dt, relax, temperature, vo):
    from checks import c24
    from lib.mdcase import blocks
    # POSCAR with atoms in the order of the crystal
    el, cnt = blocks(c.elements)
    with open('POSCAR', 'w') as f:
        f.write('case\n1.0\n' + '\n'.join(' '.join('%.15f' % v for v in r) for r in c.cell) + '\n')
        f.write(' '.join(el) + '\n' + ' '.join(str(i) for i in cnt) + '\nDirect\n')
        f.write('\n'.join(' '.join('%.15f' % v for v in r) for r in c.scaled) + '\n')
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nPRIMITIVE MATRIX\n' + '\n'.join(' '.join('%.12f' % v for v in r) for r in c.pm) + '\n')
    args = ['input', '--run_lammps', 'in.lammps', repr(total), repr(dt), repr(relax), '--dim'] + [str(i) for i in rep] + ['--silent', '-sv', 'out.h5']
    if temperature is not None:
        args += ['--temperature', repr(temperature)]
    if vo:
        args += ['--velocity_only']
    out, code, g, _ = c24.program('dynaphopy', args)
    mon.check('command_line', not code and 'trajectory' in g, 'exit code %s, output %s' % (code, out[-300:]))
    return g['trajectory']
