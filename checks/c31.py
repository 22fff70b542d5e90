"""C31  qha_extract: force constants at the equilibrium volume of the asked temperature."""
import os

import numpy as np

RULE = ('complete runs of qha_extract on sets of volumes whose free energies follow exact equations of state with a known equilibrium volume '
        'at every temperature and whose force constants are known polynomials of the volume, listed in random order: the file written against '
        'the force constants at that volume, for several temperatures, orders of files and file names; refusals outside the range. '
        'Non-trivial: a distinct crystal, order of volumes, temperature')
ASSUMPTIONS = ['energies in eV per unit cell and thermal properties in the units of phonopy (kJ/mol, J/K/mol)',
               'the energy-volume file, force constant files and thermal property files are listed in the same order']
MONITORS = ['force_constants', 'order', 'refused', 'input_kept']
MIN_NONTRIVIAL = 20
CPU_LIMIT = 300


def generate(tier, seed):
    k = 1 if tier == 'quick' else 8
    return [{'kind': 'extract', 'seed': seed * 3109 + i} for i in range(48 * k)]


def vinet(v, e0, b0, bp, v0):
    x = (v / v0) ** (1 / 3.)
    xi = 1.5 * (bp - 1)
    return e0 + 9 * b0 * v0 / xi ** 2 * (1 + (xi * (1 - x) - 1) * np.exp(xi * (1 - x)))


EV_KJMOL = 96.48533212


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, qp
    from checks.c24 import program
    rng = np.random.default_rng(case['seed'])
    while True:
        c = cr.random_crystal(rng, nprim=int(rng.integers(1, 3))) if rng.integers(2) else cr.named_crystal(str(rng.choice(cr.NAMED)))
        sc = [int(x) for x in rng.permutation([1, 1, 2])]
        if c.n * np.prod(sc) <= 10:
            break
    n = int(c.n * np.prod(sc))
    nv = int(rng.integers(6, 11))
    vc = abs(np.linalg.det(c.cell))
    volumes = vc * np.sort(1 + np.linspace(-.06, .07, nv) + rng.uniform(-.003, .003, nv))
    T = np.arange(0, int(rng.integers(6, 10)) * 100 + 1, int(rng.choice([20, 25, 50])), dtype=float)
    # equilibrium volume: quadratic in T; the free energies are those of an exact Vinet crystal
    v0 = vc * (1 - .02 + .03 * (T / T[-1]) * rng.uniform(.5, 1) + .015 * (T / T[-1]) ** 2 * rng.uniform(-.5, 1))
    b0, bp = rng.uniform(.3, 1.2), rng.uniform(3.5, 5.5)
    energy = vinet(volumes, -c.n * 4., b0, bp, v0[0]) + (.0 if rng.integers(2) else .01 * (volumes / vc - 1))
    total = np.array([vinet(volumes, -c.n * 4. - 1e-5 * t ** 1.3, b0 * (1 - 1e-4 * t / 2), bp, v) for t, v in zip(T, v0)])
    free = total - energy[None]
    # force constants: quadratic in the volume
    base = [rng.normal(size=(n, n, 3, 3)) for i in range(3)]
    K = lambda v: base[0] + base[1] * (v / vc - 1) * 10 + base[2] * ((v / vc - 1) * 10) ** 2
    lines = lambda i: [' %.12f' % x for x in K(volumes[i]).ravel()]
    import dynaphopy.interface.phonopy_link as pl
    order = np.arange(nv) if rng.integers(3) == 0 else (np.arange(nv)[::-1] if rng.integers(2) else rng.permutation(nv))
    ev = []
    fcs, tps = [], []
    tag = str(rng.choice(['vol', 'FC-', 'x']))
    for j, i in enumerate(order):
        ev.append('%.12f %.12f' % (volumes[i], energy[i]))
        f, t = '%s%02d' % (tag, j), 'thermal_%02d.yaml' % j
        with open(f, 'w') as h:
            h.write('%4d\n' % n)
            k = K(volumes[i])
            for a in range(n):
                for b in range(n):
                    h.write('%4d%4d\n' % (a + 1, b + 1) + ''.join(' %.15f %.15f %.15f\n' % tuple(r) for r in k[a, b]))
        with open(t, 'w') as h:
            h.write('thermal_properties:\n')
            for m, x in enumerate(T):
                h.write('- temperature: %.7f\n  free_energy: %.9f\n  entropy: %.7f\n  heat_capacity: %.7f\n  energy: 0.0\n'
                        % (x, free[m, i] * EV_KJMOL, 10 + x / 10, 20 + x / 50))
        fcs.append(f)
        tps.append(t)
    with open('ev.dat', 'w') as h:
        h.write(('# volume energy\n' if rng.integers(2) else '') + '\n'.join(ev) + '\n')
    with open('input', 'w') as f:
        f.write('SUPERCELL MATRIX\n%d 0 0\n0 %d 0\n0 0 %d\n' % tuple(sc))
    glob = rng.integers(3) == 0
    sums = {f: open(f).read() for f in fcs + tps + ['ev.dat', 'input']}
    step = T[1] - T[0]
    for t in [float(np.round(rng.uniform(T[0], T[-1] - 2 * step), 1)), float(T[int(rng.integers(0, len(T) - 2))])]:
        name = 'FORCE_CONSTANTS_QHA' if rng.integers(2) else 'my_fc'
        args = ['input', '-fc'] + ([tag + '*'] if glob else fcs) + ['-tp'] + (['thermal_*.yaml'] if glob else tps) + ['-ev', 'ev.dat', '-t', repr(t)]
        args += ['-sfc', name] if name == 'my_fc' else []
        out, code, g, _ = program('qha_extract', args)
        info = 'order %s t %g supercell %s' % (order, t, sc)
        if not mon.check('force_constants', code in (0, None) and os.path.exists(name), 'exit %s, no file %s: %s' % (code, info, out[-200:])):
            return
        got = np.array(pl.get_force_constants_from_file(name, fc_supercell=np.diag(sc)).get_array())
        v = float(np.interp(t, T, v0)) if t in T else None
        p = np.polyfit(T, v0, 2)
        v = np.polyval(p, t)
        want = K(v)
        # a change of the volume by 1e-4 of it changes the force constants by slope * 1e-3
        slope = np.abs(base[1] * 10 + 20 * base[2] * (v / vc - 1) * 10).max()
        mon.close('force_constants', got, want, rtol=0, atol=slope * 2e-4 + 1e-6, info=info)
        if list(order) != sorted(order):
            mon.seen('order')
        os.remove(name)
        mon.nontrivial(sc, order.tolist(), t, c.n)
    program_refuses(mon, program, ['input', '-fc'] + fcs + ['-tp'] + tps + ['-ev', 'ev.dat', '-t', repr(float(T[-1] * 1.5))])
    mon.check('input_kept', all(open(f).read() == s for f, s in sums.items()), 'an input file was changed')
    mon.observe(order=str(order), supercell=str(sc), volumes=nv)


def program_refuses(mon, program, args):
    """a temperature beyond the data is refused, nothing is written"""
    try:
        out, code, g, _ = program('qha_extract', args)
        ok = code not in (0, None)
    except Exception:
        ok = True
    mon.check('refused', ok and not os.path.exists('FORCE_CONSTANTS_QHA'), 'force constants written for a temperature out of range')
