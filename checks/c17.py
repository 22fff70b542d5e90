"""C17  Automatic atom ordering recovers the crystal order or says it cannot."""
import contextlib
import io

import numpy as np

RULE = ('MD files (LAMMPS positions, XDATCAR, OUTCAR) of random crystals and supercells with the atoms in random order, displaced by thermal '
        'noise well below half the distance between sites, wrapped into the cell, drifting out of it or shifted by whole cells; the order found '
        'is compared with the true one, and the trajectory read with it with the motion that was written. Structures that do not match are '
        'refused audibly with the order of the file kept. Non-trivial: a distinct crystal, supercell and order')
ASSUMPTIONS = ['the first frame is displaced from the lattice sites by less than a third of the shortest distance between sites and by less than half a cell vector',
               'the file uses the origin of the structure']
MONITORS = ['order_found', 'one_to_one', 'elements_match', 'displacements_small', 'motion_recovered', 'failure_reported', 'file_order_kept']
MIN_NONTRIVIAL = 60
CPU_LIMIT = 300


def generate(tier, seed):
    k = 3 if tier == 'quick' else 22
    return ([{'kind': 'random', 'seed': seed * 811 + i} for i in range(150 * k)] +
            [{'kind': 'named', 'seed': seed * 821 + i} for i in range(90 * k)] +
            [{'kind': 'mismatch', 'seed': seed * 823 + i} for i in range(40 * k)])


def shortest(c):
    """shortest distance between two atoms of the crystal"""
    g = np.array([(a, b, d) for a in (-2, -1, 0, 1, 2) for b in (-2, -1, 0, 1, 2) for d in (-2, -1, 0, 1, 2)])
    sh = np.dot(g, c.cell)
    best = min(np.linalg.norm(s) for s, k in zip(sh, g) if k.any())
    p = c.positions
    for i in range(c.n):
        for j in range(i):
            best = min(best, np.linalg.norm(p[i] - p[j] + sh, axis=1).min())
    return best


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, mdcase
    from dynaphopy.interface import iofile
    rng = np.random.default_rng(case['seed'])
    while True:
        if case['kind'] == 'named':
            c = cr.named_crystal(cr.NAMED[int(rng.integers(len(cr.NAMED)))])
            if rng.integers(2):
                c = cr.Crystal(c.cell, c.scaled + rng.uniform(-.5, .5, 3), c.elements, c.pm)
        else:
            c = cr.random_crystal(rng, outside=rng.integers(5) == 0)
        sc = [int(v) for v in rng.integers(1, 4, 3)]
        nat = int(c.n * np.prod(sc))
        if nat <= 72:
            break
    dmin = shortest(c)
    n = int(rng.integers(3, 8))
    amp = float(rng.choice([0.0, .02, .12, .3])) * dmin
    disp = rng.normal(size=(n, nat, 3))
    disp *= (amp * rng.uniform(0, 1, (n, nat)) / np.linalg.norm(disp, axis=2))[:, :, None]
    if rng.integers(4) == 0:
        # the cell centre of a displaced first frame is moved as a whole, well below half the distance between sites
        disp = disp + (rng.normal(size=3) * .02 * dmin)
    # in very skew cells: the nearest site is also the nearest one in units of the cell vectors
    skew = np.abs(np.dot(disp, np.linalg.inv(c.cell))).max()
    if skew > .45:
        disp = disp * (.45 / skew)
    sites = c.super_positions(sc)
    cell = c.super_cell(sc)
    pos = sites + disp
    wrapping = int(rng.integers(4))
    if wrapping == 1:
        s = np.dot(pos, np.linalg.inv(cell))
        pos = np.dot(s - np.floor(s), cell)
    elif wrapping == 2:
        pos = pos + np.dot(rng.integers(-2, 3, size=(1, nat, 3)), cell)
    elif wrapping == 3:
        s = np.dot(pos, np.linalg.inv(cell))
        pos = np.dot(s - np.round(s), cell)
    fmt = str(rng.choice(['lammps_x', 'xdatcar', 'outcar']))
    order = rng.permutation(nat)                     # atom i of the file is site order[i]
    cs = cr.Crystal(c.cell, c.scaled, c.elements, c.pm)
    if case['kind'] == 'mismatch':
        return mismatch(case, mon, rng, cr, mdcase, iofile, c, sc, n, sites, cell, fmt)
    s = cr.to_structure(cs)
    cf = cr.Crystal(c.cell, c.scaled, c.elements, c.pm)
    k = mdcase.write(rng, fmt, cf, sc, pos[:, order], 'md', digits=9)
    out = io.StringIO()
    info = '%s sc %s cell %s amp %.3g of %.3g wrapping %d' % (fmt, sc, np.round(c.cell, 3).tolist(), amp, dmin, wrapping)
    with contextlib.redirect_stdout(out):
        fn = iofile.get_trajectory_parser('md')
        template = iofile.check_atoms_order('md', fn, s)
        template = np.array([t for t in template], float)
    said = 'fail' in out.getvalue().lower()
    mon.nontrivial(fmt, sc, order.tolist(), np.round(c.cell, 6).tolist())
    ok = mon.check('one_to_one', sorted(template.tolist()) == list(range(nat)), 'template %s %s' % (template[:10], info))
    if said:
        mon.check('file_order_kept', template.tolist() == list(range(nat)), 'failure announced, order changed ' + info)
        mon.check('order_found', False, 'no assignment found: %s' % info, mech='no assignment')
        return
    if not ok:
        return
    template = template.astype(int)
    # every atom on the nearest site, elements included
    el = np.array(c.super_elements(sc))
    mon.check('elements_match', (el[template] == el[order]).all(), 'elements of %d atoms wrong %s' % ((el[template] != el[order]).sum(), info))
    mon.check('order_found', (template == order).all(), '%d of %d atoms on the wrong site %s' % ((template != order).sum(), nat, info), mech='wrong assignment')
    with cr.quiet():
        d = fn('md', structure=s, time_step=.001, template=template)
        rel = np.asarray(d.get_relative_trajectory()).real
    mon.check('displacements_small', np.abs(rel).max() < .45 * dmin + .1 * dmin, 'displacement %.3g, nearest sites %.3g %s' % (np.abs(rel).max(), dmin, info))
    mon.close('motion_recovered', rel, disp, rtol=0, atol=2e-6 * max(1, np.abs(cell).max()), info=info)
    mon.observe(info=info)


def mismatch(case, mon, rng, cr, mdcase, iofile, c, sc, n, sites, cell, fmt):
    """Atoms which are not on the sites of the structure: two of them compete for one site."""
    nat = len(sites)
    if nat < 2:
        mon.seen('file_order_kept')
        return
    pos = np.repeat(sites[None], n, axis=0)
    order = rng.permutation(nat)
    pos = pos[:, order]
    i, j = rng.permutation(nat)[:2]
    pos[:, i] = pos[:, j] + 1e-3
    s = cr.to_structure(c)
    k = mdcase.write(rng, fmt, c, sc, pos, 'md', digits=9)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn = iofile.get_trajectory_parser('md')
        template = [int(t) for t in iofile.check_atoms_order('md', fn, s)]
    mon.check('failure_reported', 'fail' in out.getvalue().lower(), 'two atoms on one site (%s) accepted: %s' % (sc, out.getvalue()[-200:]))
    mon.check('file_order_kept', template == list(range(nat)), 'order changed although two atoms share a site')
    mon.nontrivial('mismatch', fmt, sc, order.tolist())
