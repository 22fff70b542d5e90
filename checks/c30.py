"""C30  Polar corrections and group velocities are those of the crystal."""
import contextlib
import io
import os

import numpy as np

RULE = ('polar crystals (named ones with isotropic charges, crystals without symmetry with arbitrary charge and dielectric tensors) with BORN '
        'files, the corrections switched on and off in random order between plots, bands, densities of states and thermodynamic tables: bands '
        'approaching the zone centre against the own dynamical matrix plus the analytic polar term, bands at other commensurate wave vectors '
        'against the uncorrected ones, the rest against phonopy used directly with the same charges. Group velocities at all commensurate wave '
        'vectors against derivatives of the own dynamical matrix of the renormalized force constants. Non-trivial: a distinct crystal and history')
ASSUMPTIONS = ['the sum of the charge tensors over a primitive cell vanishes', 'group velocities in THz*A (derivative with respect to q without 2 pi)',
               'degenerate modes share the sum of their velocities']
MONITORS = ['zone_centre', 'commensurate', 'bands', 'renormalized', 'off', 'dos', 'thermal', 'no_born', 'group_velocity', 'wave_vectors', 'widths', 'projected', 'corrected']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 300


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return [{'kind': 'nac', 'seed': seed * 3001 + i} for i in range(48 * k)] + \
        [{'kind': 'velocity', 'seed': seed * 3011 + i} for i in range(40 * k)]


def run_case(case, mon):
    import matplotlib
    matplotlib.use('Agg')
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    (nac if case['kind'] == 'nac' else velocity)(mon, rng, cr, qp)


def operations(cr, s):
    from dynaphopy.interface import phonopy_link as pl
    with cr.quiet():
        ph = pl.get_phonon(s, setup_forces=False)
    return len(ph.primitive_symmetry.symmetry_operations['rotations']), list(ph.primitive_symmetry.get_independent_atoms())


POLAR = ['nacl', 'zb', 'cscl', 'tetra', 'ortho', 'hex']


def polar_case(rng, cr, qp):
    """(crystal, supercell, charges of primitive atoms by first appearance, dielectric tensor, structure, ...)"""
    while True:
        named = rng.integers(2)
        c = cr.named_crystal(str(rng.choice(POLAR))) if named else cr.random_crystal(rng, nprim=int(rng.integers(2, 4)))
        sc = [int(x) for x in rng.permutation([1, 1, 2])] if rng.integers(2) else [1, 1, 1]
        if c.n * np.prod(sc) > 12 or np.linalg.det(c.cell) < 0:       # phonopy takes the sign of the volume along
            continue
        h = cr.Harmonic(c, c.spring_fc(sc, 3.6, rng), sc)
        if h.freq.max() < 1:
            continue
        s = cr.to_structure(c, c.spring_fc(sc, 3.6, rng), sc)
        nops, ind = operations(cr, s)
        npr = c.types().max() + 1
        if named:
            els = sorted(set(c.elements))
            if len(els) != 2:
                continue
            el = [c.elements[list(c.types()).index(t)] for t in range(npr)]
            z = rng.uniform(.5, 2.5)
            Z = np.array([np.eye(3) * (z if e == els[0] else -z) for e in el])
            eps = np.eye(3) * rng.uniform(2, 8)
        else:
            if nops > 1:
                continue
            Z = rng.normal(size=(npr, 3, 3)) * 1.2
            Z -= Z.mean(axis=0)
            r = cr.rand_rotation(rng)
            eps = r.dot(np.diag(rng.uniform(2, 7, 3))).dot(r.T)
        return c, sc, Z, eps, s, ind


def write_born(rng, c, s, Z, eps, ind, cr, factor):
    """charges of the independent atoms of the primitive cell, in its order"""
    first = rng.integers(3)
    from dynaphopy.interface import phonopy_link as pl
    with cr.quiet():
        prim = pl.get_phonon(s, setup_forces=False).primitive
    order = primitive_types(c, prim)
    with open('BORN', 'w') as f:
        f.write(('%.9f\n' % factor) if first else ('%.9f  \n' % factor))
        f.write(' '.join('%.10f' % x for x in eps.ravel()) + '\n')
        for i in ind:
            f.write(' '.join('%.10f' % x for x in Z[order[i]].ravel()) + '\n')
    return order


def primitive_types(c, prim):
    """type (order of first appearance in the unit cell) of every atom of phonopy's primitive cell"""
    inv = np.linalg.inv(c.primitive)
    pos = np.dot(c.scaled, c.cell)
    out = []
    for p in prim.positions:
        f = np.dot(p - pos, inv)
        i = int(np.argmin(np.abs(f - np.round(f)).max(axis=1)))
        out.append(int(c.types()[i]))
    return out


def polar_term(c, cr, Z, eps, qdir, factor, masses):
    """limit of the polar part of the dynamical matrix at the zone centre from direction qdir (Cartesian)"""
    n = np.asarray(qdir, float) / np.linalg.norm(qdir)
    V = abs(np.linalg.det(c.primitive))
    x = np.einsum('a,tab->tb', n, Z)
    D = 4 * np.pi * factor / V / n.dot(eps).dot(n) * np.einsum('ta,ub->taub', x, x)
    m = np.sqrt(masses)
    return (D / m[:, None, None, None] / m[None, None, :, None]).reshape(3 * len(Z), 3 * len(Z))


def direct(c, sc, fc, Z, eps, order, factor, cr):
    """phonopy itself, without the code under test"""
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    ph = Phonopy(PhonopyAtoms(symbols=list(c.elements), scaled_positions=c.scaled.copy(), cell=c.cell.copy(), masses=c.masses.copy()),
                 supercell_matrix=np.diag(sc), primitive_matrix=c.pm.copy(), symprec=1e-5)
    ph.force_constants = fc.copy()
    if Z is not None:
        ph.nac_params = {'born': np.array([Z[t] for t in order]), 'dielectric': eps.copy(), 'factor': factor}
    return ph


def bands_of(ph, ranges, npts):
    out = []
    ph.run_band_structure([[np.array(a) + (np.array(b) - a) * t for t in np.linspace(0, 1, npts)] for a, b in ranges])
    return [np.array(f) for f in ph.get_band_structure_dict()['frequencies']]


def squares(mon, name, got, want, scale, info, rtol=1e-4):
    got, want = np.sort(got, axis=-1), np.sort(want, axis=-1)
    mon.close(name, np.sign(got) * got ** 2, np.sign(want) * want ** 2, rtol=rtol, scale=scale ** 2, info=info)


def nac(mon, rng, cr, qp):
    from dynaphopy.interface.phonopy_link import ForceConstants
    c, sc, Z, eps, s, ind = polar_case(rng, cr, qp)
    n = int(rng.integers(150, 300))
    dt = float(rng.choice([.003, .004]))
    s, d, h, fc, x, v = qp.harmonic_case(rng, c, sc, n, dt)
    factor = float(rng.choice([14.400, 14.399652, 13.2]))
    order = write_born(rng, c, s, Z, eps, ind, cr, factor)
    npr = c.types().max() + 1
    masses = np.array([c.masses[list(c.types()).index(t)] for t in range(npr)])
    q = qp.make(d, mesh_phonopy=(int(rng.choice([2, 4])),) + tuple(int(i) for i in rng.integers(2, 5, 2)), band_resolution=int(rng.integers(3, 7)), use_symmetry=False,
                symmetrize=False, power_spectra_algorithm=int(rng.choice([1, 2])), number_of_coefficients_mem=20)
    with cr.quiet():
        q.set_frequency_limits([0, float(np.round(h.freq.max() * 1.2, 2)) + .6])
        q.set_spectra_resolution(.1)
        q.set_temperature(float(rng.uniform(100, 600)) if rng.integers(2) else float(rng.uniform(15, 60)))
    # paths starting, ending and passing at the zone centre; ends are commensurate when the supercell allows it
    comm = [np.array(t) for t in cr.commensurate_q(c, sc) if np.abs(t).max() > 1e-6]
    ranges = []
    for k in range(int(rng.integers(1, 4))):
        kind = rng.integers(4)
        e = comm[int(rng.integers(len(comm)))] if comm and rng.integers(2) else rng.uniform(-.5, .5, 3)
        if kind == 0:
            ranges.append([np.zeros(3), e])
        elif kind == 1:
            ranges.append([e, np.zeros(3)])
        elif kind == 2:
            ranges.append([np.zeros(3), e * 1e-3 / np.linalg.norm(e)])
        else:
            ranges.append([e, rng.uniform(-.5, .5, 3)])
    with cr.quiet():
        q.set_band_ranges({'ranges': ranges} if rng.integers(2) else ranges)
    info = 'sc %s ranges %s' % (sc, np.round(ranges, 3).tolist())
    fmax = h.freq.max()
    dirs = direct(c, sc, fc, None, None, order, factor, cr), direct(c, sc, fc, Z, eps, order, factor, cr)
    if np.abs(np.array(dirs[0].supercell.positions) - c.super_positions(sc)).max() > 1e-6:
        mon.seen('skipped')         # (never) the direct object would order the atoms differently
        return
    scale = max(fmax, np.abs(bands_of(dirs[1], [[np.zeros(3), np.array([.3, .2, .1])]], 3)[0]).max())

    def judge(name, got, a, on, F=fc, D=None):
        """frequencies along the paths"""
        npts = got[0].shape[0]
        D = dirs[int(on)] if D is None else D
        want = bands_of(D, ranges, npts)
        for (qa, qb), g, w in zip(ranges, got, want):
            squares(mon, name, g, w, scale, '%s on %s %s' % (a, on, info))
            for j, t in enumerate(np.linspace(0, 1, npts)):
                qq = qa + (qb - qa) * t
                if not on:
                    M = cr.dyn_matrix(c, F, sc, qq)
                    squares(mon, 'off', g[j], cr.frequencies(M), scale, '%s q %s %s' % (a, qq, info), rtol=2e-4)
                elif np.abs(qq).max() < 2e-3:
                    M = cr.dyn_matrix(c, F, sc, qq) + polar_term(c, cr, Z, eps, cr.cart_q(c, qb) - cr.cart_q(c, qa), factor, masses)
                    squares(mon, 'zone_centre', g[j], cr.frequencies(M), scale, '%s q %s %s' % (a, qq, info), rtol=3e-3)
                elif cr.is_commensurate(c, sc, qq, tol=1e-9) and np.abs(qq - np.round(qq)).max() > 1e-3:
                    squares(mon, 'commensurate', g[j], cr.frequencies(cr.dyn_matrix(c, F, sc, qq)), scale, '%s q %s %s' % (a, qq, info), rtol=5e-3)

    from checks.c10 import super_order
    log = []
    on = False
    state = {'rfc': None}

    def renorm():
        if state['rfc'] is None:
            with cr.quiet():
                f = np.array(q.get_renormalized_force_constants().get_array())
            po = super_order(s, sc, c)
            state['rfc'] = f, f[np.ix_(po, po)]
        return state['rfc']

    def judge_widths(get):
        """bands of the force constants half a line width up and down"""
        from dynaphopy.interface import phonopy_link as pl
        with cr.quiet():
            data = q.get_commensurate_points_data()
        po = super_order(s, sc, c)
        for sign, key in ((1, 'linewidth_plus'), (-1, 'linewidth_minus')):
            with cr.quiet():
                r = np.array(pl.get_renormalized_force_constants(np.array(data['frequencies']) + sign * np.array(data['linewidths']) / 2, data['eigenvectors'],
                                                                 s, data['fc_supercell'], symmetrize=False).get_array())
            if not np.isfinite(r).all():
                continue
            judge('widths', get(key), log, on, F=r[np.ix_(po, po)], D=direct(c, sc, r, Z if on else None, eps, order, factor, cr))

    def table(a):
        return np.array([[float(w) for w in l.split()] for l in a.splitlines() if l.strip()])

    def density(F, k=None, **kw):
        dd = direct(c, sc, F, Z if on else None, eps, order, factor, cr)
        if k is None:
            dd.run_mesh(q.parameters.mesh_phonopy)
            dd.run_total_dos(use_tetrahedron_method=True, **kw)
            w = dd.get_total_dos_dict()
            return np.array(w['frequency_points']), np.array(w['total_dos']) * c.n / npr
        kw.pop('freq_pitch', None)
        dd.run_mesh(q.parameters.mesh_phonopy, with_eigenvectors=True, is_mesh_symmetry=False)
        dd.run_projected_dos(**kw)
        w = dd.get_projected_dos_dict()
        return np.array(w['frequency_points']), np.array(w['projected_dos'])[list(order).index(k)] * c.n / npr

    def corrected(k):
        """thermodynamic properties of other force constants, corrected by half the change of the energy"""
        g = float(rng.choice([.85, .93, 1.06]))
        f = q.get_frequency_range()
        kw = dict(freq_min=.01, freq_max=f[-1], freq_pitch=q.parameters.spectrum_resolution)
        with cr.quiet():
            got = q.get_thermal_properties(force_constants=ForceConstants(fc * g, supercell=np.diag(sc)))
        T = q.get_temperature()
        wr, wh = [thermodynamics(*density(F, k, **kw), T) for F in (fc * g, fc)]
        wr[[0, 3]] -= (wr[3] - wh[3]) / 2
        mon.close('corrected', np.array(got[:4]), wr, rtol=2e-3, scale=np.abs(wr).max(), info='%s %s %s' % (log, got, wr))
        mon.close('corrected', got[3], wr[3], rtol=5e-4, scale=abs(wh[3]), info='%s %s' % (log, g))

    for step in range(int(rng.integers(3, 7))):
        if rng.integers(2):
            on = bool(rng.integers(2))
            with cr.quiet():
                q.set_NAC(on)
        act = str(rng.choice(['plot', 'print', 'renormalized', 'renormalized_plot', 'dos', 'thermal', 'properties', 'spectrum']))
        log.append((act, on))
        with contextlib.redirect_stderr(io.StringIO()):
            if act == 'plot':
                figs = show(mon, q.plot_phonon_dispersion_bands)[0]
                cs = figs[0][0].curves()
                nb = 3 * npr
                judge('bands', [np.array([l[1] for l in cs[i * nb:(i + 1) * nb]]).T for i in range(len(ranges))], log, on)
            elif act == 'print':
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    q.print_phonon_dispersion_bands()
                t = table('\n'.join(l for l in out.getvalue().splitlines() if 'Warning' not in l and 'plotting' not in l))
                if mon.check('bands', t.shape[1] == 1 + 3 * npr and len(t) % len(ranges) == 0, 'table of shape %s' % (t.shape,)):
                    judge_printed = np.split(t[:, 1:], len(ranges))
                    judge('bands', judge_printed, log, on)
            elif act in ('renormalized', 'renormalized_plot'):
                try:
                    with cr.quiet():
                        data = q.get_renormalized_phonon_dispersion_bands(with_linewidths=True)
                except ValueError:
                    mon.observe(no_fit=True)
                    continue
                raw, mine = renorm()
                if not np.isfinite(raw).all() or np.abs(raw).max() < 1e-3 * np.abs(fc).max():
                    continue
                get = lambda k: [np.array([b[k]['branch_%d' % i] for i in range(3 * npr)]).T for b in data]
                judge('bands', get('harmonic_frequencies'), log, on)
                D = direct(c, sc, raw, Z if on else None, eps, order, factor, cr)
                judge('renormalized', get('renormalized_frequencies'), log, on, F=mine, D=D)
                judge_widths(get)
                for i in range(len(ranges)):
                    mon.close('renormalized', get('frequency_shifts')[i], get('renormalized_frequencies')[i] - get('harmonic_frequencies')[i],
                              rtol=1e-9, scale=scale)
                    mon.close('renormalized', get('linewidth')[i], get('linewidth_plus')[i] - get('linewidth_minus')[i], rtol=1e-9, scale=scale)
                if act == 'renormalized_plot':
                    figs = show(mon, lambda: q.plot_renormalized_phonon_dispersion_bands(plot_linewidths=False, plot_harmonic=True))[0]
                    cs = figs[0][0].curves()
                    nb = 3 * npr
                    if mon.check('renormalized', len(cs) == 2 * nb * len(ranges), '%d curves' % len(cs)):
                        for i in range(len(ranges)):
                            seg = cs[i * 2 * nb:(i + 1) * 2 * nb]
                            squares(mon, 'renormalized', np.array([l[1] for l in seg[:nb]]).T, get('renormalized_frequencies')[i], scale, str(log))
                            squares(mon, 'renormalized', np.array([l[1] for l in seg[nb:]]).T, get('harmonic_frequencies')[i], scale, str(log))
            elif act == 'dos':
                scaled = bool(rng.integers(2))
                obj = ForceConstants(fc * 1.3, supercell=np.diag(sc)) if scaled else None
                figs = show(mon, lambda: q.plot_dos_phonopy(obj) if scaled else q.plot_dos_phonopy())[0]
                cs = figs[0][0].curves()
                mon.check('dos', len(cs) == 1 + int(scaled), '%d curves' % len(cs))
                for (a, b), F in zip(cs, [fc, fc * 1.3]):
                    dd = direct(c, sc, F, Z if on else None, eps, order, factor, cr)
                    dd.run_mesh(q.parameters.mesh_phonopy)
                    dd.run_total_dos(use_tetrahedron_method=True)
                    w = dd.get_total_dos_dict()
                    mon.close('dos', a, w['frequency_points'], rtol=1e-6, scale=scale, info=str(log))
                    dos_close(mon, 'dos', b, w['total_dos'] * c.n / npr, str(log))
            elif act == 'spectrum':
                if state['rfc'] is not None and not np.abs(state['rfc'][0]).max() > 1e-3 * np.abs(fc).max():
                    continue
                figs = show(mon, q.plot_power_spectrum_full)[0]
                ls = [l for ax in figs[0] for l in ax.curves()]
                f = q.get_frequency_range()
                Fs = [fc] + ([state['rfc'][0]] if len(ls) > 2 and state['rfc'] is not None else [])
                for (a, b), F in zip(ls[1:], Fs):
                    dd = direct(c, sc, F, Z if on else None, eps, order, factor, cr)
                    dd.run_mesh(q.parameters.mesh_phonopy)
                    dd.run_total_dos(freq_min=f[0], freq_max=f[-1], freq_pitch=q.parameters.spectrum_resolution, use_tetrahedron_method=True)
                    w = dd.get_total_dos_dict()
                    mon.close('dos', a, w['frequency_points'], rtol=1e-6, scale=scale, info=str(log))
                    dos_close(mon, 'dos', b, w['total_dos'] * c.n / npr, str(log))
            elif act == 'properties':
                with cr.quiet():
                    got = q.get_thermal_properties()
                dd = dirs[int(on)]
                dd.run_mesh(q.parameters.mesh_phonopy)
                f = q.get_frequency_range()
                dd.run_total_dos(freq_min=.01, freq_max=f[-1], freq_pitch=q.parameters.spectrum_resolution, use_tetrahedron_method=True)
                w = dd.get_total_dos_dict()
                x, y = np.array(w['frequency_points']), np.array(w['total_dos']) * c.n / npr
                want = thermodynamics(x, y, q.get_temperature())
                mon.close('thermal', np.array(got[:4])[[1, 2, 3]], want[[1, 2, 3]], rtol=2e-3, scale=np.abs(want).max(), info='%s %s' % (log, got))
                mon.close('thermal', got[0], want[0], rtol=2e-3, scale=np.abs(want).max(), info='%s %s' % (log, got))
                corrected(None)
            elif act == 'thermal':
                renorm_ok = True
                try:
                    raw, mine = renorm()
                except Exception:
                    renorm_ok = False
                if not renorm_ok or not np.isfinite(raw).all() or np.abs(raw).max() < 1e-3 * np.abs(fc).max():         # no fit succeeded
                    continue
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    q.display_thermal_properties(print_phonopy=True)
                text = out.getvalue().split('From phonopy')[-1]
                for i, F in enumerate((fc, raw)):
                    dd = direct(c, sc, F, Z if on else None, eps, order, factor, cr)
                    dd.run_mesh(q.parameters.mesh_phonopy)
                    mf = dd.get_mesh_dict()['frequencies']
                    if mf.min() < .02 * mf.max():
                        continue            # a mode at zero frequency counts or not by its rounding
                    dd.run_thermal_properties(t_step=1, t_min=q.get_temperature(), t_max=q.get_temperature())
                    w = dd.get_thermal_properties_dict()
                    for key, word in (('free_energy', 'Free energy'), ('entropy', 'Entropy'), ('heat_capacity', 'Cv')):
                        line = [l for l in text.splitlines() if l.startswith(word)][0].split(':')[1].split()
                        mon.close('thermal', float(line[i]), float(np.sum(w[key])) * c.n / npr, rtol=1e-4, scale=max(1., abs(float(np.sum(w[key])))),
                                  info='%s %s' % (word, log))
    # one atom only (this cannot be undone)
    if rng.integers(2):
        on = bool(rng.integers(3))
        k = int(rng.integers(npr))
        log.append(('atom %d' % k, on))
        with cr.quiet():
            q.set_NAC(on)
            q.set_projection_onto_atom_type(k)
        figs = show(mon, lambda: q.plot_dos_phonopy(ForceConstants(fc * 1.3, supercell=np.diag(sc))))[0]
        cs = figs[0][0].curves()
        for (a, b), F in zip(cs, [fc, fc * 1.3]):
            w = density(F, k)
            mon.close('projected', a, w[0], rtol=1e-6, scale=scale, info=str(log))
            dos_close(mon, 'projected', b, w[1], str(log))
        corrected(k)
    mon.nontrivial(sc, c.cell.round(6).tolist(), log, factor)
    mon.observe(info=info, history=str(log))
    # no file: no silent results
    if rng.integers(3) == 0:
        os.remove('BORN')
        with cr.quiet():
            q.set_NAC(True)
            try:
                show(mon, q.plot_phonon_dispersion_bands)
                ok = False
            except (Exception, SystemExit):
                ok = True
        mon.check('no_born', ok, 'bands without the corrections although they are switched on and there is no BORN file')
        import matplotlib.pyplot as plt
        plt.close('all')


def show(mon, f):
    from checks.c28 import Screen
    out = io.StringIO()
    with Screen() as sc, contextlib.redirect_stdout(out):
        f()
    return sc.shows[-1], out.getvalue()


def dos_close(mon, name, got, want, info):
    """tetrahedra turn rounding of flat bands into finite differences: integrals are judged"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not mon.check(name, got.shape == want.shape, 'shape %s %s' % (got.shape, want.shape)):
        return
    mon.close(name, np.cumsum(got), np.cumsum(want), rtol=1e-3, scale=max(np.cumsum(want)[-1], 1e-9), info=info)


def thermodynamics(f, y, T):
    """free energy, entropy, heat capacity, energy (kJ/mol, J/mol/K) of a density of states"""
    from scipy.integrate import simpson
    hp, kb, na = 6.62607015e-22, 1.380649e-23, 6.02214076e23
    x = hp * f / (kb * T)
    F = na * (hp * f / 2 + kb * T * np.log1p(-np.exp(-x))) / 1000
    S = na * kb * (x / np.expm1(x) - np.log1p(-np.exp(-x)))
    C = na * kb * x ** 2 * np.exp(x) / np.expm1(x) ** 2
    U = na * hp * f * (.5 + 1 / np.expm1(x)) / 1000
    I = lambda k: float(simpson(k * y, x=f))
    return np.array([I(F), I(S), I(C), I(U)])


def velocity(mon, rng, cr, qp):
    from checks.c10 import super_order
    while True:
        c = cr.random_crystal(rng, nprim=int(rng.integers(1, 4)))
        sc = [int(x) for x in rng.permutation([1, int(rng.integers(1, 3)), 2])]
        if c.n * np.prod(sc) > 16 or cr.Harmonic(c, c.spring_fc(sc, 3.6, rng), sc).freq.max() < 1:
            continue
        if operations(cr, cr.to_structure(c))[0] <= (2 if c.types().max() == 0 else 1):
            break
    n = int(rng.integers(150, 300))
    s, d, h, fc, x, v = qp.harmonic_case(rng, c, sc, n, .004)
    if rng.integers(2):
        fsc = [1, 1, 1] if rng.integers(2) else sc
    else:
        fsc = sc
    q = qp.make(d, use_symmetry=False, symmetrize=False, power_spectra_algorithm=int(rng.choice([1, 2])), number_of_coefficients_mem=20,
                use_MD_cell_commensurate=bool(rng.integers(2)))
    if fsc != sc:
        s.set_force_constants(__import__('dynaphopy.interface.phonopy_link', fromlist=['x']).ForceConstants(
            c.spring_fc(fsc, 3.6, rng), supercell=np.diag(fsc)))
    with cr.quiet():
        q.set_frequency_limits([0, float(np.round(h.freq.max() * 1.2, 2)) + .6])
        q.set_spectra_resolution(.1)
        try:
            p = q.get_commensurate_points_properties()
        except ValueError:
            mon.observe(no_fit=True)
            return
        F = q.get_renormalized_force_constants()
    raw = np.array(F.get_array())
    used = [int(i) for i in np.diag(F.get_supercell())]
    want_sc = sc if q.parameters.use_MD_cell_commensurate else fsc
    info = 'sc %s fc %s md %s' % (sc, fsc, q.parameters.use_MD_cell_commensurate)
    mon.check('wave_vectors', used == want_sc and np.allclose(p['fc_supercell'], np.diag(want_sc)), 'supercell %s %s' % (used, info))
    if not np.isfinite(raw).all() or np.abs(raw).max() < 1e-3 * np.abs(fc).max():       # no fit succeeded
        return
    po = super_order(s, used, c)
    mine = raw[np.ix_(po, po)]
    qs = np.array(p['q_points'], float)
    comm = cr.commensurate_q(c, used)
    mon.check('wave_vectors', len(qs) == len(comm) and all(min(np.abs((k - q0) - np.round(k - q0)).max() for q0 in qs) < 1e-6 for k in comm),
              'wave vectors %s instead of %s' % (qs.tolist(), comm.tolist()))
    gv = np.array(p['group_velocity'], float)
    if not mon.check('wave_vectors', gv.shape == (len(qs), 3 * (c.types().max() + 1), 3), 'shape %s' % (gv.shape,)):
        return
    eps = 1e-4
    B = np.linalg.inv(2 * np.pi * np.linalg.inv(c.primitive))       # Cartesian (2 pi) -> reduced
    for qq, g in zip(qs, gv):
        D0 = cr.dyn_matrix(c, mine, used, qq)
        w, e = np.linalg.eigh(D0)
        f = cr.frequencies(D0)
        top = h.freq.max()
        V, full = np.zeros((len(f), 3)), 0.
        for a in range(3):
            dk = np.zeros(3)
            dk[a] = eps
            dq = np.dot(B, dk)
            dD = (cr.dyn_matrix(c, mine, used, qq + dq) - cr.dyn_matrix(c, mine, used, qq - dq)) / (2 * eps) * cr._v ** 2
            V[:, a] = np.einsum('ai,ab,bi->i', e.conj(), dD, e).real * 2 * np.pi
            full = np.maximum(full, np.abs(np.dot(e.conj().T, np.dot(dD, e))) * 2 * np.pi)
        groups, i = [], 0
        while i < len(f):
            j = i + 1
            while j < len(f) and abs(f[j] - f[j - 1]) < 3e-3 * top:
                j += 1
            groups.append((i, j))
            i = j
        for i, j in groups:
            if f[i:j].min() < .1 * top:
                continue            # acoustic modes at the zone centre, unstable modes (given no velocity)
            got, want = g[i:j].sum(axis=0), (V[i:j] / (2 * f[i:j, None])).sum(axis=0)
            # modes which the eigensolver takes for degenerate are mixed: opposite velocities, each with its own frequency
            mixed = full[i:j, i:j].max() / (2 * f[i]) if j - i > 1 else 0.
            mon.close('group_velocity', got, want, rtol=1e-3, scale=max(mixed, np.abs(V).max() / (2 * top), np.abs(V / (2 * np.maximum(np.abs(f), .05 * top)[:, None])).max(), .05),
                      info='q %s modes %d-%d %s' % (qq, i, j, info))
    mon.nontrivial('v', sc, fsc, c.cell.round(6).tolist(), n)
