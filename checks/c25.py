"""C25  MD cells that do not fit the crystal are refused, fitting ones recognised."""
import numpy as np

RULE = ('random crystals (all cell kinds) with MD cells that are integer multiples, strained by up to 0.4 % per axis, and cells with '
        'non-integer ratios along one, two or three axes (mismatches of any sign, also cancelling, also in very anisotropic supercells), '
        'driven through get_supercell_matrix, the analyses and MD files; own counts of atoms, types and equivalent sites. '
        'Non-trivial: a distinct (cell kind, supercell, mismatch) combination')
ASSUMPTIONS = ['mismatches below 0.4 % of every axis are cell relaxations, beyond 2 % along any axis they are not']
MONITORS = ['recognised', 'recognised_strained', 'number_of_atoms', 'equivalent_sites', 'refused', 'refused_again', 'refused_analysis',
            'refused_file', 'accepted_file', 'masses_of_sites']
MIN_NONTRIVIAL = 60
CPU_LIMIT = 200
KINDS = ['cubic', 'ortho', 'hex', 'mono', 'tri', 'rot', 'left', 'skew']


def generate(tier, seed):
    k = 3 if tier == 'quick' else 24
    return ([{'kind': 'fit', 'seed': seed * 2411 + i} for i in range(300 * k)] +
            [{'kind': 'misfit', 'seed': seed * 2417 + i} for i in range(400 * k)] +
            [{'kind': 'file', 'seed': seed * 2423 + i} for i in range(60 * k)])


def pick(rng, i):
    from lib import crystal as cr
    while True:
        c = cr.random_crystal(rng, KINDS[i % len(KINDS)], nprim=int(rng.integers(1, 3)))
        if rng.integers(4) == 0:
            sc = [int(x) for x in rng.permutation([1, 1, int(rng.integers(8, 40))])]
        else:
            sc = [int(x) for x in rng.integers(1, 6, 3)]
        if c.n * np.prod(sc) <= 320:
            return c, sc


def dynamics(c, cell, nat, rng):
    from lib import crystal as cr
    from dynaphopy.dynamics import Dynamics
    n = 3
    s = cr.to_structure(c)
    return Dynamics(structure=s, trajectory=rng.normal(size=(n, nat, 3)), velocity=rng.normal(size=(n, nat, 3)),
                    time=np.arange(n) * .001, supercell=np.array(cell, float))


def run_case(case, mon):
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    qp.reset_parameters()
    {'fit': fit, 'misfit': misfit, 'file': file_case}[case['kind']](case, mon, rng, cr, qp)


def exits(f):
    try:
        r = f()
    except SystemExit:
        return True, None
    return False, r


def fit(case, mon, rng, cr, qp):
    c, sc = pick(rng, case['seed'])
    nat = c.n * int(np.prod(sc))
    strain = rng.integers(2) * rng.uniform(-.004, .004, 3)
    cell = c.super_cell(sc) * (1 + strain)[:, None]
    info = '%s %d atoms, supercell %s, strain %s' % (KINDS[case['seed'] % 8], c.n, sc, np.round(strain, 4))
    with cr.quiet():
        d = dynamics(c, cell, nat, rng)
        m = 'recognised_strained' if strain.any() else 'recognised'
        for _ in range(2):
            out, got = exits(d.get_supercell_matrix)
            if not mon.check(m, not out, 'refused: ' + info):
                return
            mon.check(m, list(got) == sc, '%s: %s' % (got, info))
        mon.check('number_of_atoms', d.get_number_of_atoms() == nat, '%s %s' % (d.get_number_of_atoms(), info))
        types = np.array(d.structure.get_atom_type_index(supercell=d.get_supercell_matrix()))
        want = np.repeat(c.types(), np.prod(sc))
        if mon.check('equivalent_sites', len(types) == nat, info):
            mon.check('equivalent_sites', ((types[:, None] == types[None]) == (want[:, None] == want[None])).all(), info)
            mon.check('equivalent_sites', len(set(types)) == d.structure.get_number_of_primitive_atoms() == int(c.types().max()) + 1, info)
        masses = np.repeat(np.asarray(c.masses), np.prod(sc))
        mon.close('masses_of_sites', d.get_velocity_mass_average(), d.velocity * np.sqrt(masses)[None, :, None], rtol=1e-12, info=info)
    mon.nontrivial(case['seed'] % 8, sc, bool(strain.any()))
    mon.observe(case=info)


def mismatched(rng, sc):
    """ratios, at least one of them far from an integer (relative to its size)"""
    while True:
        r = np.array(sc, float)
        how = int(rng.integers(5))
        axes = rng.permutation(3)[:[1, 2, 3, 2, 0][how]]
        for a in axes:
            r[a] += rng.choice([-1, 1]) * rng.uniform(.03, .5) * (1 if rng.integers(2) else max(1, r[a] * .3))
        if how == 3:         # cancelling
            x = rng.uniform(.05, .45)
            r = np.array(sc, float)
            r[axes[0]] += x
            r[axes[1]] -= x
        if how == 4:         # the same factor along every axis
            r = np.array(sc, float) * (1 + rng.choice([-1, 1]) * rng.uniform(.025, .4))
        if (r < .2).any():
            continue
        if (np.abs(r - np.round(r)) > .02 * r).any():
            return r


def misfit(case, mon, rng, cr, qp):
    import dynaphopy
    c, sc = pick(rng, case['seed'])
    r = mismatched(rng, sc)
    nat = c.n * int(np.prod(sc))
    cell = c.cell * r[:, None]
    info = '%s, ratios %s' % (KINDS[case['seed'] % 8], np.round(r, 4))
    with cr.quiet():
        d = dynamics(c, cell, nat, rng)
        what = int(rng.integers(4))
        name, f = [('get_supercell_matrix', d.get_supercell_matrix), ('get_number_of_atoms', d.get_number_of_atoms),
                   ('get_velocity_mass_average', d.get_velocity_mass_average), ('get_relative_trajectory', d.get_relative_trajectory)][what]
        out, got = exits(f)
        mon.check('refused', out, '%s gave %s: %s' % (name, np.array(got).ravel()[:3], info))
        out, got = exits(d.get_supercell_matrix)
        mon.check('refused_again', out, 'second call gave %s: %s' % (got, info))
        d = dynamics(c, cell, nat, rng)
        q = None

        def analysis():
            q = dynaphopy.Quasiparticle(d)
            q.parameters.silent = True
            q.parameters.power_spectra_algorithm = 2
            q.parameters.frequency_range = np.arange(0, 5, .5)
            q.parameters.use_symmetry = False
            return [q.get_vc, q.get_power_spectrum_full, q.get_temperature_md if hasattr(q, 'get_temperature_md') else q.get_vc,
                    q.show_boltzmann_distribution][int(rng.integers(4))]()
        out, got = exits(analysis)
        mon.check('refused_analysis', out, 'an analysis gave results: %s' % info)
    mon.nontrivial(case['seed'] % 8, np.round(r, 2))
    mon.observe(case=info)


def file_case(case, mon, rng, cr, qp):
    """through MD files and the readers"""
    from dynaphopy.interface import iofile
    import dynaphopy.interface.iofile.trajectory_parsers as tp
    c, sc = pick(rng, case['seed'])
    while c.n * np.prod(sc) > 60:
        c, sc = pick(rng, case['seed'])
    nat = c.n * int(np.prod(sc))
    good = bool(rng.integers(2))
    r = np.array(sc, float) if good else mismatched(rng, sc)
    cell = c.cell * r[:, None]
    x = rng.uniform(size=(4, nat, 3))
    info = '%s, ratios %s' % (KINDS[case['seed'] % 8], np.round(r, 4))
    with open('XDATCAR', 'w') as h:
        h.write('check\n1.0\n')
        for v in cell:
            h.write(' %.12f %.12f %.12f\n' % tuple(v))
        names = []
        for e in np.repeat(c.elements, np.prod(sc)):
            if not names or names[-1][0] != e:
                names.append([e, 0])
            names[-1][1] += 1
        h.write(' '.join(a[0] for a in names) + '\n' + ' '.join(str(a[1]) for a in names) + '\n')
        for i, f in enumerate(x):
            h.write('Direct configuration= %5d\n' % (i + 1))
            for p in f:
                h.write(' %.8f %.8f %.8f\n' % tuple(p))
    s = cr.to_structure(c)
    with cr.quiet():
        def go():
            d = tp.read_VASP_XDATCAR('XDATCAR', s, .001)
            return d.get_number_of_atoms(), list(d.get_supercell_matrix())
        out, got = exits(go)
    if good:
        mon.check('accepted_file', not out and got == (nat, sc), '%s %s' % (got, info))
    else:
        mon.check('refused_file', out, '%s: %s' % (got, info))
    mon.nontrivial('file', case['seed'] % 8, np.round(r, 2))
    mon.observe(case=info)
