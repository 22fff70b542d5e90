"""C03  Minimum-image displacements."""
import numpy as np

RULE = ('random sites and trajectories wrapped by random integer cell vectors, per atom and frame, in 1-d to 4-d cells of '
        'eleven shapes (skewed, left-handed, elongated, rotated ...), through the compiled kernel and through the '
        'trajectory object (supercells, memory mapping). Non-trivial: a distinct (cell shape, dimension, wrap range, '
        'path) combination in which at least one displacement needed a non-zero cell vector')
ASSUMPTIONS = ['fractional components closer than 1e-7 to +-1/2 may go either way']
MONITORS = ['integer_combination', 'half_cell', 'wrap_invariance', 'true_displacement', 'real', 'independence']
MIN_NONTRIVIAL = 30
KINDS = ['cubic', 'ortho', 'tetra', 'hex', 'hex60', 'mono', 'tri', 'skew', 'left', 'rot', 'long']


def generate(tier, seed):
    k = 3 if tier == 'quick' else 20
    cases = []
    for i in range(24 * k):
        cases.append({'kind': 'kernel', 'seed': seed * 6007 + i, 'n': 12})
    for i in range(22 * k):
        cases.append({'kind': 'dynamics', 'seed': seed * 6007 + 500 + i, 'cell': KINDS[i % len(KINDS)], 'memmap': i % 4 == 3})
    return cases


def judge(mon, d, traj, pos, cell, info, u=None):
    """d, traj (..., D), pos (D), cell rows."""
    d = np.asarray(d)
    inv = np.linalg.inv(cell)
    mon.check('real', np.abs(np.imag(d)).max() == 0 if d.size else True, info)
    d = d.real
    cond = np.linalg.cond(cell)
    big = np.abs(traj).max() / np.abs(cell).max() + 1
    eps = 1e-11 * cond * big + 1e-9
    n = np.dot(np.real(traj) - pos - d, inv)
    mon.check('integer_combination', np.abs(n - np.round(n)).max() < eps * 10,
              '%s: largest deviation from an integer %.3g' % (info, np.abs(n - np.round(n)).max()))
    f = np.dot(d, inv)
    mon.check('half_cell', np.abs(f).max() <= .5 + eps * 10, '%s: fractional component %.6f' % (info, np.abs(f).max()))
    if u is not None:
        mon.close('true_displacement', d, u, rtol=0, atol=1e-8 * (1 + np.abs(cell).max()) + 1e-12 * np.abs(cell).max() * big, info=info)
    return n


def run_case(case, mon):
    from lib import crystal as cr
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'kernel':
        from dynaphopy.displacements import atomic_displacements as D
        for _ in range(case['n']):
            dim = int(rng.choice([1, 2, 3, 3, 3, 3, 3, 4]))
            kind = str(rng.choice(KINDS))
            if dim == 3:
                cell = cr.rand_cell(rng, kind) * rng.choice([.1, 1, 1, 3, 20])
            else:
                kind = 'general'
                while True:
                    cell = rng.normal(size=(dim, dim)) * 4
                    if np.linalg.cond(cell) < 20:
                        break
            pos = rng.uniform(-2, 2, dim) @ cell
            nf = int(rng.choice([1, 2, 9, 50]))
            W = int(rng.choice([0, 1, 3, 40, 40, 3000, 10 ** 6]))
            wrap = rng.integers(-W, W + 1, (nf, dim))
            fu = rng.uniform(-.49999, .49999, (nf, dim))
            if rng.integers(3) == 0:
                fu = fu * .1
            u = fu @ cell
            traj = pos + u + wrap @ cell
            info = '%s cell %s, pos %s, wrap %d' % (kind, np.round(cell, 3).tolist(), np.round(pos, 3).tolist(), W)
            d = D(traj + 1j * rng.normal(size=traj.shape) * (rng.integers(2)), pos, cell)
            n = judge(mon, d, traj, pos, cell, info, u)
            d2 = D((traj + rng.integers(-5, 6, (nf, dim)) @ cell).astype(complex), pos, cell)
            mon.close('wrap_invariance', d2, d, rtol=0, atol=1e-8 * (1 + 50 * np.abs(cell).max()), info=info)
            k = int(rng.integers(nf))
            mon.close('independence', D(traj[k:k + 1].astype(complex), pos, cell)[0], d[k], rtol=0, atol=1e-9 * np.abs(cell).max() * (1 + W), info=info)
            if np.abs(np.round(n)).max() > 0:
                mon.nontrivial('kernel', kind, dim, W)
        mon.observe(cell=cell.tolist(), displacement=np.round(d.real[0], 6).tolist(), removed=np.round(n[0]).tolist())
        return
    c = cr.random_crystal(rng, case['cell'], nprim=int(rng.integers(1, 3)), outside=rng.integers(4) == 0)
    sc = [int(x) for x in rng.choice([1, 1, 2, 3], 3)]
    cell = c.super_cell(sc)
    pos = c.super_positions(sc)
    nf = 9
    fu = rng.uniform(-.49, .49, (nf, len(pos), 3)) if rng.integers(2) else rng.normal(size=(nf, len(pos), 3)) * .02
    fu = np.clip(fu, -.49, .49)
    u = fu @ cell
    wrap = rng.integers(-2, 3, (nf, len(pos), 3))
    s = cr.to_structure(c)
    with cr.quiet():
        dyn = cr.to_dynamics(c, s, sc, disp=u, wrap=wrap, memmap=case['memmap'])
        before = dyn.trajectory.copy()
        d = np.array(dyn.get_relative_trajectory())
    mon.check('input untouched', np.array_equal(before, dyn.trajectory), 'positions changed')
    info = '%s supercell %s' % (case['cell'], sc)
    judge(mon, d.reshape(-1, 3), (pos + u + wrap @ cell).reshape(-1, 3), np.tile(pos, (nf, 1)), cell, info, u.reshape(-1, 3))
    with cr.quiet():
        dyn2 = cr.to_dynamics(c, s, sc, disp=u, wrap=wrap + rng.integers(-3, 4, wrap.shape))
        d2 = np.array(dyn2.get_relative_trajectory())
        # other atoms and frames do not matter
        u3 = u.copy()
        a = int(rng.integers(len(pos)))
        f = int(rng.integers(nf))
        u3 += rng.normal(size=u.shape) * .3
        u3[f, a] = u[f, a]
        d3 = np.array(cr.to_dynamics(c, s, sc, disp=u3, wrap=wrap).get_relative_trajectory())
    mon.close('wrap_invariance', d2, d, rtol=0, atol=1e-8 * (1 + np.abs(cell).max()), info=info)
    mon.close('independence', d3[f, a], d[f, a], rtol=0, atol=1e-9 * np.abs(cell).max(), info=info)
    mon.nontrivial('dynamics', case['cell'], str(sc), case['memmap'])
    mon.observe(crystal_atoms=c.n, supercell=sc, cell=case['cell'], max_removed=int(np.abs(wrap).max()))
