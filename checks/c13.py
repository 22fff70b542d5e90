"""C13  Trajectory and structure queries do not depend on query order."""
import contextlib
import io

import numpy as np

RULE = ('random sequences of queries, croppings (Dynamics) and replacements of the primitive cell or the positions (Structure) on one '
        'object; every answer, at every point of the sequence, is compared with that of a fresh object holding the same data. '
        'Positions given in Cartesian or scaled form, velocities given or derived, energies, one to several types. '
        'Non-trivial: a distinct sequence')
ASSUMPTIONS = ['the caller does not write into returned arrays']
MONITORS = ['dynamics_query', 'dynamics_crop', 'structure_query', 'structure_replace', 'crystal_of_structure', 'arguments_untouched', 'answers_untouched']
MIN_NONTRIVIAL = 60
CPU_LIMIT = 200


def generate(tier, seed):
    k = 3 if tier == 'quick' else 22
    return ([{'kind': 'dynamics', 'seed': seed * 701 + i} for i in range(600 * k)] +
            [{'kind': 'structure', 'seed': seed * 709 + i} for i in range(600 * k)])


def traj_proj(d, v):
    from dynaphopy.analysis.coordinates import trajectory_projection
    return trajectory_projection(d, v)


DQ = {
    'time': lambda d: d.get_time(),
    'time_step': lambda d: d.get_time_step_average(),
    'energy': lambda d: d.get_energy(),
    'supercell': lambda d: d.get_supercell(),
    'supercell_matrix': lambda d: d.get_supercell_matrix(),
    'atoms': lambda d: d.get_number_of_atoms(),
    'trajectory': lambda d: d.trajectory,
    'velocity': lambda d: d.velocity,
    'relative': lambda d: d.get_relative_trajectory(),
    'velocity_mass': lambda d: d.get_velocity_mass_average(),
    'msd': lambda d: d.get_mean_displacement_matrix(),
    'msd_average': lambda d: d.get_mean_displacement_matrix(use_average_positions=True),
    'average': lambda d: d.average_positions(),
    'average_unit': lambda d: d.average_positions(to_unit_cell=True),
    'projection_x': lambda d: traj_proj(d, [1, 0, 0]),
    'projection_s': lambda d: traj_proj(d, [1, 2, -1]),
    's_types': lambda d: d.structure.get_atom_type_index(supercell=[int(x) for x in d.get_supercell_matrix()]),
    's_positions': lambda d: d.structure.get_positions(supercell=[int(x) for x in d.get_supercell_matrix()]),
    's_primitive': lambda d: d.structure.get_primitive_cell(),
    's_elements': lambda d: d.structure.get_atomic_elements(unique=True),
}


def sq(name, *a, **k):
    def f(s):
        return getattr(s, name)(*a, **k)
    return f


def structure_queries(rng):
    q = {}
    for sc in (None, [1, 1, 1], [2, 1, 1], [1, 3, 2], np.array([2, 2, 1])):
        t = str(sc)
        for n in ('get_positions', 'get_scaled_positions', 'get_masses', 'get_atomic_elements', 'get_atomic_numbers',
                  'get_atom_type_index', 'get_cell', 'get_cell_parameters', 'get_charges'):
            q[n + t] = sq(n, supercell=sc)
        q['unique' + t] = sq('get_atomic_elements', supercell=sc, unique=True)
    for n in ('get_primitive_cell', 'get_primitive_matrix', 'get_number_of_atoms', 'get_number_of_cell_atoms',
              'get_number_of_atom_types', 'get_number_of_primitive_atoms', 'get_number_of_dimensions',
              'get_supercell_phonon', 'forces_available'):
        q[n] = sq(n)
    return q


def plain(x):
    if isinstance(x, (list, tuple)) and not any(isinstance(e, (np.ndarray, list, tuple)) for e in x):
        return np.array(x)
    return np.array(x)


def cmp(mon, name, got, want, info, mech):
    if got is None or want is None:
        return mon.check(name, got is None and want is None, '%r instead of %r %s' % (got, want, info), mech=mech)
    g, w = plain(got), plain(want)
    if g.dtype.kind in 'USb' or w.dtype.kind in 'USb':
        return mon.check(name, g.shape == w.shape and (g == w).all(), '%s instead of %s %s' % (g, w, info), mech=mech)
    return mon.close(name, g, w, rtol=1e-10, atol=1e-12, info=info, mech=mech)


def run_case(case, mon):
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'structure':
        return structures(case, mon, rng, cr)
    from dynaphopy.dynamics import Dynamics
    while True:
        c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
        sc = [int(x) for x in rng.permutation([1, int(rng.integers(1, 3)), int(rng.integers(1, 4))])]
        nat = int(c.n * np.prod(sc))
        if nat <= 24:
            break
    n = int(rng.integers(20, 60))
    disp = rng.normal(size=(n, nat, 3)) * .12
    pos = c.super_positions(sc) + disp + np.dot(rng.integers(-2, 3, size=(n, nat, 3)), c.super_cell(sc))
    cell = c.super_cell(sc)
    vel = rng.normal(size=(n, nat, 3))
    mode = int(rng.integers(5))
    data = {'trajectory': None, 'scaled_trajectory': None, 'velocity': None, 'energy': None}
    if mode in (0, 1):
        data['trajectory'] = pos.astype(complex)
    elif mode in (2, 3):
        data['scaled_trajectory'] = np.dot(pos, np.linalg.inv(cell)).astype(complex)
    if mode in (0, 2, 4):
        data['velocity'] = vel.astype(complex)
    if rng.integers(2):
        data['energy'] = rng.normal(size=n)
    data['time'] = 3.0 + np.arange(n) * float(rng.choice([.001, .0025]))
    needs_pos = {'trajectory', 'relative', 'msd', 'msd_average', 'average', 'average_unit', 'projection_x', 'projection_s'}
    names = [k for k in DQ if not (mode == 4 and k in needs_pos)]
    keep = {k: (None if v is None else v.copy()) for k, v in data.items()}

    def fresh(crop):
        sl = slice(None) if crop is None else slice(-crop, None)
        return Dynamics(structure=cr.to_structure(c), supercell=cell.copy(),
                        **{k: (None if v is None else v[sl].copy()) for k, v in keep.items()})

    with cr.quiet():
        d = Dynamics(structure=cr.to_structure(c), supercell=cell, **data)
        crop, log, kept = None, [], []
        for _ in range(int(rng.integers(6, 16))):
            if rng.uniform() < .2:
                m = n if crop is None else crop
                new = int(rng.integers(3, m + 1))
                if rng.integers(6) == 0:
                    new = m + int(rng.integers(1, 5))
                if rng.integers(8) == 0:
                    d.crop_trajectory(None if rng.integers(2) else 0)
                    log.append('crop none')
                else:
                    d.crop_trajectory(new)
                    log.append('crop %d' % new)
                    crop = min(new, m)
            else:
                nm = names[int(rng.integers(len(names)))]
                got = DQ[nm](d)
                if isinstance(got, np.ndarray):
                    kept.append((nm, got, got.copy()))
                want = DQ[nm](fresh(crop))
                cmp(mon, 'dynamics_crop' if crop else 'dynamics_query', got, want,
                    '%s (mode %d) after %s' % (nm, mode, ', '.join(log)), 'dynamics:' + nm)
                log.append(nm)
        for nm in [str(x) for x in rng.permutation(names)]:
            got = DQ[nm](d)
            cmp(mon, 'dynamics_crop' if crop else 'dynamics_query', got, DQ[nm](fresh(crop)),
                '%s (mode %d) after %s' % (nm, mode, ', '.join(log)), 'dynamics:' + nm)
    for nm, ref, copy in kept:
        mon.check('answers_untouched', ref.tobytes() == copy.tobytes(), 'the answer to %s was changed by later calls: %s' % (nm, ', '.join(log)))
    for k, v in keep.items():
        if v is not None:
            mon.check('arguments_untouched', data[k].tobytes() == v.tobytes(), '%s changed by %s' % (k, ', '.join(log)))
    mon.nontrivial(*log)
    mon.count('operations', len(log))
    mon.observe(mode=mode, atoms=nat, history=', '.join(log))


def structures(case, mon, rng, cr):
    from dynaphopy.atoms import Structure
    c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
    while c.n > 12:
        c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
    q = structure_queries(rng)
    names = list(q)
    mode = int(rng.integers(3))     # scaled, Cartesian, both
    charges = rng.normal(size=c.n) if rng.integers(2) else None
    masses = rng.uniform(1, 50, c.n) if rng.integers(4) == 0 else None
    state = {'pm': None if rng.integers(3) == 0 else c.pm.copy(), 'scaled': c.scaled.copy()}
    if masses is not None and state['pm'] is not None:
        # equivalent atoms weigh the same
        t = c.types()
        masses = masses[t]

    def make(st):
        a = dict(cell=c.cell.copy(), atomic_elements=list(c.elements), primitive_matrix=None if st['pm'] is None else st['pm'].copy(),
                 charges=None if charges is None else charges.copy(), masses=None if masses is None else masses.copy())
        if mode != 1:
            a['scaled_positions'] = st['scaled'].copy()
        if mode != 0:
            a['positions'] = np.dot(st['scaled'], c.cell)
        return Structure(**a)

    with contextlib.redirect_stdout(io.StringIO()):
        s = make(state)
        log, replaced = [], False
        for _ in range(int(rng.integers(8, 22))):
            u = rng.uniform()
            if u < .12:
                pm = [c.pm, np.eye(3), c.pm[:, [1, 2, 0]]][int(rng.integers(3))]
                s.set_primitive_matrix(np.array(pm))
                state['pm'] = np.array(pm)
                log.append('set_primitive_matrix')
                replaced = True
            elif u < .22:
                shift = rng.uniform(0, 1, 3)
                new = [c.scaled + shift, c.scaled + rng.normal(size=c.scaled.shape) * .03, c.scaled][int(rng.integers(3))]
                s.set_positions(np.dot(new, c.cell))
                state['scaled'] = np.array(new)
                log.append('set_positions')
                replaced = True
            else:
                nm = names[int(rng.integers(len(names)))]
                got = q[nm](s)
                got = got.copy() if isinstance(got, np.ndarray) else got
                cmp(mon, 'structure_replace' if replaced else 'structure_query', got, q[nm](make(state)),
                    '%s after %s' % (nm, ', '.join(log)), 'structure:' + nm.split('[')[0].replace('None', ''))
                log.append(nm)
        for nm in [str(x) for x in rng.permutation(names)]:
            cmp(mon, 'structure_replace' if replaced else 'structure_query', q[nm](s), q[nm](make(state)),
                '%s after %s' % (nm, ', '.join(log)), 'structure:' + nm.split('[')[0].replace('None', ''))
        mon.close('crystal_of_structure', s.get_positions(), np.dot(state['scaled'], c.cell), rtol=1e-10, atol=1e-10)
        mon.close('crystal_of_structure', s.get_scaled_positions(), state['scaled'], rtol=1e-10, atol=1e-10)
        pm = np.eye(3) if state['pm'] is None else state['pm']
        mon.close('crystal_of_structure', s.get_primitive_cell(), np.dot(c.cell.T, pm).T, rtol=1e-10, atol=1e-10)
    mon.nontrivial(*log)
    mon.count('operations', len(log))
