"""C28  Figures draw the computed numbers where they belong."""
import contextlib
import io
import os

import numpy as np

RULE = ('every plotting method on random crystals and trajectories, in random order, with labels, bins, atoms, coordinates and modes chosen at '
        'random: the finished figures (lines, bars, filled areas, points, arrows, ticks) against the computed numbers, an own dynamical matrix, '
        'own histograms and the times of the frames. Non-trivial: a distinct crystal, setting and order of plots')
ASSUMPTIONS = ['figures are inspected when they are shown; colours, titles and fonts are not judged']
MONITORS = ['trajectory', 'velocity', 'energy', 'wave_vector_projection', 'mode_projection', 'harmonic_bands', 'bands_printed', 'renormalized_bands',
            'band_widths', 'band_labels', 'shifts_and_widths', 'mesh', 'spectrum_full', 'spectrum_wave_vector', 'spectrum_phonon', 'dos', 'legend', 'visible',
            'eigenvectors', 'distribution', 'gaussian', 'boltzmann', 'peaks', 'mem_scan', 'figures_shown']
MIN_NONTRIVIAL = 30
DEBUG = 0
CPU_LIMIT = 400


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return [{'kind': 'figures', 'seed': seed * 2801 + i} for i in range(96 * k)] + \
        [{'kind': 'gaussian', 'seed': seed * 2803 + i} for i in range(16 * k)] + \
        [{'kind': 'printed', 'seed': seed * 2819 + i} for i in range(16 * k)]


class Ax:
    def __init__(self, ax):
        from matplotlib.collections import PathCollection
        self.lines = [(np.array(l.get_xdata(orig=True), dtype=complex).real, np.array(l.get_ydata(orig=True), dtype=complex).real)
                      for l in ax.lines]
        self.labels = [l.get_label() for l in ax.lines]
        self.colors = [str(l.get_color()) for l in ax.lines]
        g = ax.get_legend()
        self.legend = [] if g is None else [(t.get_text(), str(h.get_color()) if hasattr(h, 'get_color') else '')
                                            for t, h in zip(g.get_texts(), g.legend_handles)]
        self.bars = np.array([(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, 'get_height')], float)
        self.points = [np.array(c.get_offsets(), float) for c in ax.collections if isinstance(c, PathCollection)]
        self.areas = [np.array(c.get_paths()[0].vertices, float) for c in ax.collections
                      if not isinstance(c, PathCollection) and len(c.get_paths())]
        self.arrows = [np.array(a._verts3d, float) for a in ax.get_children() if type(a).__name__ == 'Arrow3D']
        self.lines3d = [np.array(l.get_data_3d(), float) for l in ax.lines if hasattr(l, 'get_data_3d')]
        self.ticks = (np.array(ax.get_xticks(), float), [t.get_text() for t in ax.get_xticklabels()])
        self.xlim = ax.get_xlim()
        self.texts = [t.get_text() for t in ax.texts]

    def called(self, *words):
        """curves drawn in the colour of the legend's entry with these words"""
        import re
        c = [h for t, h in self.legend if set(words) <= set(re.findall('[a-z]+|[0-9]+', t.lower()))]
        return [l for l, k in zip(self.lines, self.colors) if k in c and len(l[0]) > 2]

    def curves(self):
        """lines with more than two points"""
        return [l for l in self.lines if len(l[0]) > 2]


class Screen:
    """collects the figures present at every show()"""

    def __init__(self):
        self.shows = []

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        plt.close('all')
        self.old = plt.show

        def show(*a, **k):
            self.shows.append([[Ax(ax) for ax in plt.figure(n).axes] for n in plt.get_fignums()])
            plt.close('all')
        plt.show = show
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        plt.show = self.old
        plt.close('all')


def shown(mon, f, figures=None, shows=1):
    """(figures, printed text) of a call which shows its figures once"""
    out = io.StringIO()
    with Screen() as s, contextlib.redirect_stdout(out):
        f()
    mon.check('figures_shown', shows is None or len(s.shows) == shows, '%d shows instead of %s' % (len(s.shows), shows))
    figs = [ax for sh in s.shows for ax in sh]
    if figures is not None:
        mon.check('figures_shown', len(figs) == figures, '%d figures instead of %d' % (len(figs), figures))
    return figs, out.getvalue()


def has(mon, name, lines, x, y, info, rtol=1e-9, atol=1e-12):
    """one of the lines is the curve"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    best = None
    for a, b in lines:
        if a.shape == x.shape and b.shape == y.shape:
            d = max(np.abs(a - x).max() / max(1e-300, np.abs(x).max()), np.abs(b - y).max() / max(1e-300, np.abs(y).max() + atol / rtol))
            best = d if best is None else min(d, best)
    return mon.check(name, best is not None and best <= rtol, 'no line of %d (%s) is the curve of %d points, closest %s %s'
                     % (len(lines), [len(a) for a, b in lines][:6], len(x), best, info))


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'gaussian':
        return gaussian(case, mon, rng, cr, qp)
    if case['kind'] == 'printed':
        return printed(case, mon, rng, cr, qp)
    while True:
        if rng.integers(2):
            c = cr.random_crystal(rng, nprim=int(rng.integers(1, 3)))
        else:
            c = cr.named_crystal(str(rng.choice(cr.NAMED)))
        sc = [int(x) for x in rng.permutation([1, 1, 2])]
        if 2 <= c.n * np.prod(sc) <= 16 \
                and cr.Harmonic(c, c.spring_fc(sc, 3.6, np.random.default_rng(1)), sc).freq.max() > 1:
            break               # atoms held by springs
    n = int(rng.integers(150, 400))
    dt = float(rng.choice([.002, .004, .005]))
    s, d, h, fc, x, v = qp.harmonic_case(rng, c, sc, n, dt, velocity=bool(rng.integers(2)))
    energy = rng.normal(size=n) * 3
    d = type(d)(structure=s, trajectory=d.trajectory, velocity=None if rng.integers(2) else np.array(v, complex), energy=energy,
                time=rng.uniform(0, 5) + np.arange(n) * dt, supercell=c.super_cell(sc))
    sym = bool(rng.integers(2))
    q = qp.make(d, mesh_phonopy=(3, 3, 3), band_resolution=int(rng.integers(4, 9)), use_symmetry=sym, symmetrize=False)
    fmax = h.freq.max()
    with cr.quiet():
        q.set_frequency_limits([0, float(np.round(fmax * 1.2, 2)) + .6])
        q.set_spectra_resolution(float(rng.choice([.1, .15, .2])))
        q.select_power_spectra_algorithm(int(rng.choice([0, 1, 2, 3])))
        q.set_number_of_mem_coefficients(int(rng.integers(10, 60)))
        q.select_fitting_function(int(rng.integers(3)))
        comm = cr.commensurate_q(c, sc)
        qr = np.array(comm[int(rng.integers(len(comm)))], float)
        q.set_reduced_q_vector(qr)
    # band paths: continuous and broken, labelled or not
    pts, names = {'GAMMA': np.zeros(3), 'X': np.array([.5, 0, 0]), 'M': np.array([.5, .5, 0]), 'R': np.array([.5, .5, .5]),
                  'K': np.array([.25, .125, 0]), 'X_1': np.array([.5, .25, 0]), 'M_2': np.array([.5, .5, .25])}, None
    keys = list(pts)
    nseg = int(rng.integers(1, 4))
    segs, at = [], str(rng.choice(keys))
    for _ in range(nseg):
        to = str(rng.choice([k for k in keys if k != at]))
        segs.append((at, to))
        at = to if rng.integers(2) else str(rng.choice([k for k in keys if k != to]))
        if at == to:
            at = to
    ranges = [[pts[a], pts[b]] for a, b in segs]
    labelled = bool(rng.integers(3))
    with cr.quiet():
        if labelled:
            q.set_band_ranges({'ranges': ranges, 'labels': [list(x) for x in segs]})
        else:
            q.set_band_ranges(ranges)
    q.parameters.number_of_bins_histogram = int(rng.integers(5, 40))
    info = 'sc %s n %d dt %g q %s segs %s sym %s' % (sc, n, dt, qr, segs, sym)
    mon.nontrivial(sc, n, dt, qr, segs, c.cell.round(6).tolist())
    mon.observe(info=info)
    env = dict(q=q, c=c, cr=cr, sc=sc, fc=fc, s=s, d=d, rng=rng, n=n, dt=dt, qr=qr, segs=segs, ranges=ranges, labelled=labelled,
               x=x, v=v, energy=energy, h=h, info=info, qp=qp)
    for name in [str(k) for k in rng.permutation(list(PLOTS))[:9 if rng.integers(2) else len(PLOTS)]]:
        PLOTS[name](mon, **env)
        if q.parameters.project_on_atom >= 0:
            with cr.quiet():
                q.full_clear()          # there is no way back through the methods
                q.power_spectra_clear()
                q.parameters.project_on_atom = -1


# ---------------------------------------------------------------- raw data
def times(n, dt):
    return np.arange(n) * dt


def p_trajectory(mon, q, c, sc, d, rng, n, dt, info, **k):
    nat = int(c.n * np.prod(sc))
    atoms = sorted(set(int(i) for i in rng.integers(0, nat, 2)))
    coords = sorted(set(int(i) for i in rng.integers(0, 3, 2)))
    default = rng.integers(4) == 0
    for name, f, data in (('trajectory', q.plot_trajectory, d.trajectory), ('velocity', q.plot_velocity, d.velocity)):
        figs, _ = shown(mon, (lambda: f()) if default else (lambda: f(atoms=atoms, coordinates=coords)), 1)
        data = np.asarray(data).real
        aa, cc = ([0], [0]) if default else (atoms, coords)
        lines = figs[0][0].lines
        mon.check(name, len(lines) == len(aa) * len(cc), '%d lines for atoms %s coordinates %s' % (len(lines), aa, cc))
        for i, (a, b) in enumerate((a, b) for a in aa for b in cc):
            has(mon, name, lines[i:i + 1], times(n, dt), data[:, a, b], 'atom %d coordinate %d %s' % (a, b, info), rtol=1e-7)
            has(mon, 'legend', figs[0][0].called(str(a), str(b)), times(n, dt), data[:, a, b], '%s of atom %d coordinate %d %s' % (name, a, b, info), rtol=1e-7)


def p_energy(mon, q, d, energy, info, **k):
    figs, _ = shown(mon, q.plot_energy, 1)
    has(mon, 'energy', figs[0][0].lines, np.array(d.get_time()).real, energy, info)


def p_projection(mon, q, c, rng, n, dt, cr, info, **k):
    with cr.quiet():
        vc, vq = np.array(q.get_vc()), np.array(q.get_vq())
    m = sorted(set(int(i) for i in rng.integers(0, vq.shape[1], 2)))
    a = sorted(set(int(i) for i in rng.integers(0, vc.shape[1], 2)))
    co = sorted(set(int(i) for i in rng.integers(0, 3, 2)))
    default = rng.integers(4) == 0
    if default:
        m, a, co = [0], [0], [0]
    figs, _ = shown(mon, (lambda: q.plot_vq()) if default else (lambda: q.plot_vq(modes=m)), 1)
    mon.check('mode_projection', len(figs[0][0].lines) == len(m), 'lines for modes')
    for i, j in enumerate(m):
        has(mon, 'mode_projection', figs[0][0].lines[i:i + 1], times(n, dt), vq[:, j].real, 'mode %d %s' % (j, info), rtol=1e-7)
        has(mon, 'legend', figs[0][0].called(str(j)), times(n, dt), vq[:, j].real, 'mode %d %s' % (j, info), rtol=1e-7)
    figs, _ = shown(mon, (lambda: q.plot_vc()) if default else (lambda: q.plot_vc(atoms=a, coordinates=co)), 1)
    mon.check('wave_vector_projection', len(figs[0][0].lines) == len(a) * len(co), 'lines for atoms and coordinates')
    for i, (j, l) in enumerate((j, l) for j in a for l in co):
        has(mon, 'wave_vector_projection', figs[0][0].lines[i:i + 1], times(n, dt), vc[:, j, l].real, 'atom %d %d %s' % (j, l, info), rtol=1e-7)
        has(mon, 'legend', figs[0][0].called(str(j), str(l)), times(n, dt), vc[:, j, l].real, 'atom %d %d %s' % (j, l, info), rtol=1e-7)
    with cr.quiet():
        for bad in (0, -1, vc.shape[1] + 1):
            try:
                q.save_vc('absent', bad)
                mon.fail('wave_vector_projection', 'projection of atom %d of %d saved' % (bad, vc.shape[1]))
            except Exception:
                mon.check('wave_vector_projection', not os.path.exists('absent'), 'a file of atom %d' % bad)


# ---------------------------------------------------------------- spectra
def p_spectra(mon, q, c, sc, fc, cr, rng, info, **k):
    if rng.integers(3) == 0:
        with cr.quiet():
            q.set_projection_onto_atom_type(int(rng.integers(len(set(c.types())))))
    with cr.quiet():
        f, full, wv, ph = np.array(q.get_frequency_range()), np.array(q.get_power_spectrum_full()), \
            np.array(q.get_power_spectrum_wave_vector()), np.array(q.get_power_spectrum_phonon())
    from dynaphopy.interface import phonopy_link as pl
    rfc = q._renormalized_force_constants
    with cr.quiet():
        try:
            dos = [pl.obtain_phonopy_dos(q.dynamic.structure, mesh=q.parameters.mesh_phonopy, freq_min=f[0], freq_max=f[-1],
                                         freq_pitch=f[1] - f[0], force_constants=o, projected_on_atom=q.parameters.project_on_atom)
                   for o in [None] + ([rfc] if rfc is not None else [])]
        except ValueError as e:             # no fit succeeded: no renormalised frequencies
            if 'arange' not in str(e):
                raise
            return
    figs, out = shown(mon, q.plot_power_spectrum_full, 1)
    lines = [l for ax in figs[0] for l in ax.lines]
    has(mon, 'spectrum_full', lines, f, full, info)
    mon.check('spectrum_full', len(lines) == 1 + len(dos), '%d curves for %d densities of states' % (len(lines), len(dos)))
    for l, o in zip(lines[1:], dos):
        has(mon, 'spectrum_full', [l], o[0], o[1], 'density of states ' + info, rtol=1e-6)
    both = [(t, col) for ax in figs[0] for t, col in ax.legend]
    colour = lambda word: [l for ax in figs[0] for l, k in zip(ax.lines, ax.colors) if k in [col for t, col in both if word in t.lower()]]
    has(mon, 'legend', colour('spectrum'), f, full, info)
    for word, o in zip(('harmonic', 'renormalized'), dos):
        has(mon, 'legend', colour(word), o[0], o[1], word + ' density of states ' + info, rtol=1e-6)
    area = float(np.trapezoid(full, f))
    got = [float(w) for w in out.split() if w.replace('.', '').replace('-', '').replace('e', '').replace('+', '').isdigit()]
    from scipy.integrate import simpson
    simp = float(simpson(full, x=f))
    lo, hi = min(area, simp), max(area, simp)
    mon.check('spectrum_full', any(lo - 1e-6 * hi <= g <= hi * (1 + 1e-6) for g in got), 'printed area %s, integrals %s %s' % (got[-3:], area, simp))
    figs, out = shown(mon, q.plot_power_spectrum_wave_vector, 1)
    has(mon, 'spectrum_wave_vector', figs[0][0].lines, f, wv, info)
    figs, out = shown(mon, q.plot_power_spectrum_phonon, ph.shape[1])
    for i in range(min(len(figs), ph.shape[1])):
        has(mon, 'spectrum_phonon', figs[i][0].curves(), f, ph[:, i], 'mode %d %s' % (i, info))
        mon.check('spectrum_phonon', len(figs[i][0].curves()) == 1, 'several curves in the figure of one mode')


def p_dos(mon, q, c, cr, sc, fc, rng, info, **k):
    from dynaphopy.interface.phonopy_link import ForceConstants
    scaled = rng.integers(2)
    if rng.integers(3) == 0:
        with cr.quiet():
            q.set_projection_onto_atom_type(int(rng.integers(len(set(c.types())))))
    obj = ForceConstants(fc * 1.44, supercell=np.diag(sc)) if scaled else None
    figs, _ = shown(mon, lambda: q.plot_dos_phonopy(obj) if scaled else q.plot_dos_phonopy(), 1)
    cs = figs[0][0].curves()
    mon.check('dos', len(cs) == 1 + int(bool(scaled)), '%d curves' % len(cs))
    from dynaphopy.interface import phonopy_link as pl
    for f, (x, y) in zip([None, obj], cs):
        with cr.quiet():
            want = pl.obtain_phonopy_dos(q.dynamic.structure, mesh=q.parameters.mesh_phonopy, force_constants=f, projected_on_atom=q.parameters.project_on_atom)
        if mon.check('dos', x.shape == want[0].shape, '%s points instead of %s' % (x.shape, want[0].shape)):
            mon.close('dos', x, want[0], rtol=1e-9, info=info)
            mon.close('dos', y, want[1], rtol=1e-6, info=info)
            has(mon, 'legend', figs[0][0].called('renormalized' if f is not None else 'harmonic'), want[0], want[1], info, rtol=1e-6)


# ---------------------------------------------------------------- bands
def own_bands(cr, c, fc, sc, ranges, npts):
    out = []
    for a, b in ranges:
        out.append(np.array([cr.frequencies(cr.dyn_matrix(c, fc, sc, a + (b - a) * t)) for t in np.linspace(0, 1, npts)]))
    return out


def own_distances(c, cr, ranges, npts):
    out, x0 = [], 0.
    for a, b in ranges:
        l = np.linalg.norm(cr.cart_q(c, b) - cr.cart_q(c, a)) / (2 * np.pi)
        out.append(x0 + l * np.linspace(0, 1, npts))
        x0 += l
    return out


def order_of(s, sc, c):
    """the atoms of phonopy's supercell in the order of dynaphopy (as C10)"""
    from checks.c10 import super_order
    return super_order(s, sc, c)


def squares_close(mon, name, got, want, info, scale, rtol=2e-4):
    got, want = np.sort(got, axis=1), np.sort(want, axis=1)
    mon.close(name, np.sign(got) * got ** 2, np.sign(want) * want ** 2, scale=scale ** 2, rtol=rtol, info=info)


def labels_check(mon, ax, segs, dist, labelled, info):
    if not labelled:
        mon.check('band_labels', all(t not in ('X', 'M', 'R', 'K', 'X_1', 'M_2') for t in ax.ticks[1]), 'labels although none were given')
        return
    tex = lambda t: t.replace('GAMMA', '$\\Gamma$')
    want = []
    for i, (a, b) in enumerate(segs):
        if i == 0 or segs[i - 1][1] == a:
            want.append(tex(a))
        else:
            want.append(tex(segs[i - 1][1]) + '/' + tex(a))
    want.append(tex(segs[-1][1]))
    pos = [dd[0] for dd in dist] + [dist[-1][-1]]
    mon.check('band_labels', ax.ticks[1] == want, 'labels %s instead of %s' % (ax.ticks[1], want))
    mon.close('band_labels', ax.ticks[0], pos, rtol=1e-6, atol=1e-12, info=info)


def p_bands(mon, q, h, c, cr, sc, fc, segs, ranges, labelled, info, **k):
    figs, _ = shown(mon, q.plot_phonon_dispersion_bands, 1)
    ax = figs[0][0]
    cs = ax.curves()
    if not mon.check('harmonic_bands', len(cs) == len(ranges) * 3 * len(set(c.types())), '%d curves for %d paths' % (len(cs), len(ranges))):
        return
    nb = len(cs) // len(ranges)
    npts = len(cs[0][0])
    want, dist = own_bands(cr, c, fc, sc, ranges, npts), own_distances(c, cr, ranges, npts)
    for i in range(len(ranges)):
        seg = cs[i * nb:(i + 1) * nb]
        mon.close('harmonic_bands', np.array([l[0] for l in seg]), np.repeat(dist[i][None], nb, 0), rtol=1e-6, atol=1e-9, info=info)
        squares_close(mon, 'harmonic_bands', np.array([l[1] for l in seg]).T, want[i], info, h.freq.max())
    labels_check(mon, ax, segs, dist, labelled, info)
    mon.close('harmonic_bands', ax.xlim, [0, dist[-1][-1]], rtol=1e-6, atol=1e-9)


def printed(case, mon, rng, cr, qp):
    """the printed table of the bands: one row per wave vector, every value, whatever the number of branches"""
    while True:
        c = cr.random_crystal(rng, nprim=int(rng.choice([1, 2, 3, 4, 6, 10, 11, 13])), centring='P')
        sc = [1, 1, 1]
        fc = c.spring_fc(sc, 3.6, rng)
        h = cr.Harmonic(c, fc, sc)
        if h.freq.max() > 1:
            break
    s = cr.to_structure(c, fc, sc)
    q = qp.make(cr.to_dynamics(c, s, sc, disp=np.zeros((5, c.n, 3)), dt=.005))
    ranges = [[rng.uniform(-.5, .5, 3), rng.uniform(-.5, .5, 3)] for i in range(int(rng.integers(1, 4)))]
    with cr.quiet():
        q.set_band_ranges({'ranges': ranges})
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        q.print_phonon_dispersion_bands()
    nb = 3 * c.n
    info = '%d branches, %d paths' % (nb, len(ranges))
    try:
        t = np.array([[float(w) for w in l.split()] for l in out.getvalue().splitlines() if l.strip()])
    except ValueError as e:
        t = np.zeros(0)
        info += ' (%s)' % e
    npts = len(t) // len(ranges)
    if mon.check('bands_printed', t.ndim == 2 and npts > 1 and t.shape == (npts * len(ranges), 1 + nb), 'table of shape %s, %s' % (t.shape, info)):
        want, dist = own_bands(cr, c, fc, sc, ranges, npts), own_distances(c, cr, ranges, npts)
        mon.close('bands_printed', t[:, 0], np.concatenate(dist), rtol=1e-6, atol=1e-9, info=info)
        squares_close(mon, 'bands_printed', t[:, 1:], np.concatenate(want), info, h.freq.max())
    mon.nontrivial('printed', nb, len(ranges), case['seed'])


def p_renormalized(mon, q, h, c, cr, s, sc, fc, segs, ranges, labelled, info, rng, **k):
    with cr.quiet():
        try:
            data = q.get_renormalized_phonon_dispersion_bands(with_linewidths=True)
        except ValueError:
            return
        a = np.array(q.get_renormalized_force_constants().get_array())
    order = order_of(s, sc, c)
    mine = a[np.ix_(order, order)]
    nb = 3 * len(set(c.types()))
    npts = len(data[0]['q_path_distances'])
    widths, harm = [(True, False), (False, True), (True, True)][int(rng.integers(3))]
    figs, _ = shown(mon, lambda: q.plot_renormalized_phonon_dispersion_bands(plot_linewidths=widths, plot_harmonic=harm), 1)
    ax = figs[0][0]
    cs = ax.curves()
    if not mon.check('renormalized_bands', len(cs) == len(ranges) * nb * (1 + int(harm)), '%d curves' % len(cs)):
        return
    want, dist = own_bands(cr, c, mine, sc, ranges, npts), own_distances(c, cr, ranges, npts)
    wantH = own_bands(cr, c, fc, sc, ranges, npts)
    step = nb * (1 + int(harm))
    scale = h.freq.max()
    if DEBUG:
        print(scale, wantH)
    for i in range(len(ranges)):
        seg = cs[i * step:(i + 1) * step]
        mon.close('renormalized_bands', np.array([l[0] for l in seg]), np.repeat(dist[i][None], step, 0), rtol=1e-6, atol=1e-9, info=info)
        got, w = np.sort(np.array([l[1] for l in seg[:nb]]).T, 1), np.sort(want[i], 1)
        mon.close('renormalized_bands', np.sign(got) * got ** 2, np.sign(w) * w ** 2, rtol=0, atol=2e-4 * scale ** 2, info=info)
        if harm:
            squares_close(mon, 'renormalized_bands', np.array([l[1] for l in seg[nb:]]).T, wantH[i], info, h.freq.max())
    if harm:
        for j, l in enumerate(cs):
            has(mon, 'legend', ax.called('renormalized' if j % step < nb else 'harmonic'), l[0], l[1], 'bands ' + info)
    mon.check('visible', ax.xlim[0] <= 1e-9 and ax.xlim[1] >= dist[-1][-1] * (1 - 1e-6), 'abscissa %s of a path from 0 to %s' % (ax.xlim, dist[-1][-1]))
    labels_check(mon, ax, segs, dist, labelled, info)
    if widths:
        if mon.check('band_widths', len(ax.areas) == len(ranges) * nb, '%d areas' % len(ax.areas)):
            for i, p in enumerate(data):
                for j in range(nb):
                    f, lw = np.array(p['renormalized_frequencies']['branch_%d' % j]), np.array(p['linewidth']['branch_%d' % j])
                    v = ax.areas[i * nb + j]
                    x = np.array(p['q_path_distances'])
                    want_set = np.vstack([np.stack([x, f + lw / 2], 1), np.stack([x, f - lw / 2], 1)])
                    # every corner of the area is one of the wanted points and the other way round
                    sx, sy = max(x[-1] - x[0], 1e-9), scale
                    dd = np.abs(want_set[:, None] - v[None]) / np.array([sx, sy])
                    dd = dd.max(axis=2)
                    mon.check('band_widths', dd.min(axis=1).max() < 1e-6, 'edges of the filled area of branch %d off by %.3g %s'
                              % (j, dd.min(axis=1).max(), info))


def p_widths(mon, q, h, c, cr, s, sc, fc, segs, ranges, labelled, info, **k):
    with cr.quiet():
        try:
            data = q.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True, interconnect_bands=True)
        except ValueError:
            return
    figs, _ = shown(mon, q.plot_linewidths_and_shifts_bands, 4)
    nb = 3 * len(set(c.types()))
    npts = len(data[0]['q_path_distances'])
    dist = own_distances(c, cr, ranges, npts)
    wantH = own_bands(cr, c, fc, sc, ranges, npts)
    for key, f in zip(('linewidth', 'harmonic_frequencies', 'frequency_shifts', 'renormalized_frequencies'), figs):
        cs = f[0].curves()
        if not mon.check('shifts_and_widths', len(cs) == nb * len(ranges), '%d curves of %s' % (len(cs), key)):
            return
        for i, p in enumerate(data):
            for j in range(nb):
                has(mon, 'shifts_and_widths', [cs[i * nb + j]], dist[i], p[key]['branch_%d' % j], '%s branch %d %s' % (key, j, info), rtol=1e-6)
        labels_check(mon, f[0], segs, dist, labelled, info)
        mon.check('visible', f[0].xlim[0] <= 1e-9 and f[0].xlim[1] >= dist[-1][-1] * (1 - 1e-6), 'abscissa %s of a path from 0 to %s' % (f[0].xlim, dist[-1][-1]))
    for i in range(len(ranges)):
        g = [np.array([l[1] for l in f[0].curves()[i * nb:(i + 1) * nb]]) for f in figs]
        squares_close(mon, 'shifts_and_widths', g[1].T, wantH[i], info, h.freq.max())
        mon.close('shifts_and_widths', g[2], g[3] - g[1], rtol=0, atol=1e-9, info=info)


def p_mesh(mon, q, cr, c, info, **k):
    with cr.quiet():
        _, _, f, w = q.get_mesh_frequencies_and_linewidths()
    figs, _ = shown(mon, q.plot_frequencies_vs_linewidths, 1)
    pts = np.vstack(figs[0][0].points)
    want = np.stack([np.ravel(np.array(f).T), np.ravel(np.array(w).T)], 1)
    mon.close('mesh', pts, want, rtol=1e-9, atol=1e-12, info=info)


# ---------------------------------------------------------------- modes
def p_eigenvectors(mon, q, c, cr, qr, rng, info, **k):
    scale = int(rng.choice([1, 5, 10]))
    q.parameters.modes_vectors_scale = scale
    with cr.quiet():
        ev = np.array(q.get_eigenvectors())
    figs, _ = shown(mon, q.plot_eigenvectors, ev.shape[0])
    types, masses = c.types(), c.masses
    inv = np.linalg.inv(c.primitive)
    for i, f in enumerate(figs):
        ar = np.array(f[0].arrows)
        if not mon.check('eigenvectors', ar.shape == (c.n, 3, 2), 'arrows %s for %d atoms' % (ar.shape, c.n)):
            return
        mon.close('eigenvectors', ar[:, :, 0], c.positions, rtol=1e-9, atol=1e-9, info=info)
        phase = np.exp(2j * np.pi * np.dot(np.dot(c.positions, inv), qr))
        want = (ev[i][types] / np.sqrt(masses)[:, None] * phase[:, None]).real * scale
        mon.close('eigenvectors', ar[:, :, 1] - ar[:, :, 0], want, rtol=1e-5, atol=1e-9, info='phonon %d %s' % (i, info))
        dots = np.array([l.ravel() for l in f[0].lines3d if l.size == 3])
        mon.close('eigenvectors', dots, c.positions, rtol=1e-9, atol=1e-9, info='atoms ' + info)
        cols = [k for l, k in zip(f[0].lines3d, f[0].colors) if l.size == 3]
        by = dict(f[0].legend)
        mon.check('legend', len(cols) == c.n and sorted(by) == sorted(set(c.elements)) and all(by[e] == k for e, k in zip(c.elements, cols)),
                  'legend %s, atoms %s' % (by, list(zip(c.elements, cols))))


def p_distribution(mon, q, c, cr, sc, x, rng, info, **k):
    direction = rng.normal(size=3) if rng.integers(2) else np.eye(3)[int(rng.integers(3))]
    u = direction / np.linalg.norm(direction)
    types = np.repeat(c.types(), int(np.prod(sc)))
    figs, _ = shown(mon, lambda: q.plot_trajectory_distribution(list(direction)), types.max() + 1)
    with cr.quiet():
        rel = np.asarray(q.dynamic.get_relative_trajectory()).real
        heights, _ = q.get_atomic_displacements(direction)
    nbins = q.parameters.number_of_bins_histogram
    p = rel.dot(u)
    edges = np.linspace(p.min(), p.max(), nbins + 1)
    for t in range(types.max() + 1):
        b = figs[t][0].bars
        if not mon.check('distribution', len(b) == nbins, '%d bars for %d bins' % (len(b), nbins)):
            return
        want = np.histogram(p[:, types == t], bins=edges, density=True)[0]
        mon.close('distribution', b[:, 0], edges[:-1], rtol=0, atol=1e-6 * (edges[-1] - edges[0]), info='left edges ' + info)
        mon.close('distribution', b[:, 1], np.diff(edges), rtol=1e-6, info='widths ' + info)
        # counts on a bin edge may fall on either side
        mon.check('distribution', np.abs(np.cumsum((b[:, 2] - want) * np.diff(edges))).max() <= 3.01 / p[:, types == t].size,
                  'heights differ by %.3g of all %s' % (np.abs(np.cumsum((b[:, 2] - want) * np.diff(edges))).max(), info))


def gaussian(case, mon, rng, cr, qp):
    """normally distributed displacements: the fit shown and printed is theirs"""
    from checks.c28 import shown
    c = cr.random_crystal(rng, nprim=int(rng.integers(1, 3)))
    sc = [1, 1, 2]
    n = 2500
    s = cr.to_structure(c)
    nat = int(c.n * np.prod(sc))
    types = np.repeat(c.types(), int(np.prod(sc)))
    sig = rng.uniform(.03, .3, types.max() + 1)
    mu = rng.uniform(-.1, .1, types.max() + 1)
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    disp = (mu[types][None, :] + sig[types][None, :] * rng.normal(size=(n, nat)))[:, :, None] * u
    d = cr.to_dynamics(c, s, sc, disp=disp, dt=.001)
    q = qp.make(d)
    q.parameters.number_of_bins_histogram = 60
    figs, out = shown(mon, lambda: q.plot_trajectory_distribution(list(u * 2)), types.max() + 1)
    mean = [float(l.split()[-2]) for l in out.splitlines() if l.startswith('Mean')]
    std = [float(l.split()[-2]) for l in out.splitlines() if l.startswith('Standard')]
    failed = out.count('fitting failed')
    mon.check('gaussian', len(mean) == len(std) == types.max() + 1 - failed and failed <= 1, 'fits printed %s %s' % (mean, std))
    with cr.quiet():
        p = np.asarray(d.get_relative_trajectory()).real.dot(u)
    if not failed:
        for t in range(types.max() + 1):
            a = p[:, types == t].ravel()
            w = (p.max() - p.min()) / 60
            if np.abs(np.dot(np.abs(disp).max(axis=(0, 1)), np.ones(3))) > 1.5:
                continue
            mon.close('gaussian', mean[t], a.mean(), rtol=0, atol=.08 * a.std() + .1 * w, info='mean of type %d sigma %s' % (t, a.std()))
            mon.close('gaussian', abs(std[t]), a.std(), rtol=.1, atol=.15 * w, info='deviation of type %d' % t)
            line = [l for l in figs[t][0].curves()]
            if mon.check('gaussian', len(line) == 1, 'fitted curves %d' % len(line)):
                x, y = line[0]
                b = figs[t][0].bars
                peak = np.exp(-(x - a.mean()) ** 2 / 2 / a.var()) / np.sqrt(2 * np.pi * a.var())
                mon.close('gaussian', y, peak, rtol=.2, info='curve of type %d' % t)
    mon.nontrivial('gaussian', sig.tolist(), sc)


def p_boltzmann(mon, q, c, cr, sc, d, info, **k):
    silent = q.parameters.silent
    q.parameters.silent = False
    try:
        figs, out = shown(mon, q.show_boltzmann_distribution, 1)
    finally:
        q.parameters.silent = silent
    m = c.super_masses(sc)
    with cr.quiet():
        v = np.asarray(d.velocity).real
    w = np.linalg.norm(v * np.sqrt(m)[None, :, None], axis=2).ravel()
    t = np.mean(w ** 2) / 3 / (cr.KB_EV / cr.KIN_EV)
    b = figs[0][0].bars
    want, edges = np.histogram(w, bins=q.parameters.number_of_bins_histogram, density=True)
    mon.check('boltzmann', len(b) == len(want), 'bars')
    mon.close('boltzmann', b[:, 0], edges[:-1], rtol=1e-6, atol=1e-9, info=info)
    mon.check('boltzmann', np.abs(np.cumsum((b[:, 2] - want) * np.diff(edges))).max() <= 3.01 / w.size, 'heights ' + info)
    x, y = figs[0][0].curves()[0]
    a = np.sqrt(np.mean(w ** 2) / 3)
    mon.close('boltzmann', y, np.sqrt(2 / np.pi) * x ** 2 * np.exp(-x ** 2 / 2 / a ** 2) / a ** 3, rtol=1e-5, info=info)
    text = [z for z in figs[0][0].texts if 'Temperature' in z]
    mon.check('boltzmann', len(text) == 1 and abs(float(text[0].split()[-2]) - t) < .06 + 1e-4 * t, 'temperature %s written, %.4f calculated' % (text, t))


def p_peaks(mon, q, cr, c, sc, info, **k):
    from dynaphopy.analysis import fitting
    with cr.quiet():
        f, ph, hf = np.array(q.get_frequency_range()), np.array(q.get_power_spectrum_phonon()), np.array(q.get_frequencies())
        res = fitting.phonon_fitting_analysis(ph, f, harmonic_frequencies=hf, thermal_expansion_shift=q.get_qha_shift(q.get_reduced_q_vector()),
                                              show_plots=False, fitting_function_type=q.parameters.fitting_function,
                                              use_degeneracy=q.parameters.use_symmetry)
    good = [i for i in range(ph.shape[1]) if res['positions'][i] or res['widths'][i]]
    silent = q.parameters.silent
    q.parameters.silent = False
    try:
        figs, _ = shown(mon, q.phonon_individual_analysis)
    finally:
        q.parameters.silent = silent
    if not mon.check('peaks', len(figs) == len(good), '%d figures for %d fits' % (len(figs), len(good))):
        return
    for fig, i in zip(figs, good):
        ax = fig[0]
        members = [j for j in range(ph.shape[1]) if q.parameters.use_symmetry and abs(hf[j] - hf[i]) < 1e-2] or [i]
        if not q.parameters.use_symmetry or len(members) == 1:
            has(mon, 'peaks', ax.curves(), f, ph[:, i], 'spectrum of peak %d %s' % (i, info))
        vert = [l for l in ax.lines if len(l[0]) == 2 and l[0][0] == l[0][1]]
        mon.check('peaks', any(abs(l[0][0] - res['positions'][i]) < 1e-6 + 1e-9 * abs(res['positions'][i]) for l in vert),
                  'position marked %s instead of %s' % ([l[0][0] for l in vert], res['positions'][i]))


def p_scan(mon, q, cr, info, rng, **k):
    """scan over the number of coefficients against single analyses with each of them"""
    from dynaphopy.analysis.fitting.fitting_functions import fitting_functions
    scan = [int(v) for v in sorted(set(rng.integers(5, 60, 4).tolist()))]
    p = q.parameters
    keep = p.mem_scan_range
    alg, mem = p.power_spectra_algorithm, p.number_of_coefficients_mem
    with cr.quiet():
        f = np.array(q.get_frequency_range())
        nm = q.get_vq().shape[1]
    p.mem_scan_range = np.array(scan)
    figs, out = shown(mon, q.phonon_width_scan_analysis, shows=out_count(q, cr, scan))
    p.mem_scan_range = keep
    blocks = {}
    for b in out.split('Peak # ')[1:]:
        i = int(b.split()[0]) - 1
        blocks[i] = {l.split(':')[0].strip(): float(l.split(':')[1].split()[0]) for l in b.splitlines() if ':' in l and 'Warning' not in l}
    rows = {i: [] for i in range(nm)}
    spectra = {}
    bad = {i: 0 for i in range(nm)}
    sym = p.use_symmetry
    with cr.quiet():
        p.use_symmetry = False      # the scan is over this wave vector alone
        q.set_number_of_mem_coefficients(3)
        q.select_power_spectra_algorithm(1)
        for nc in scan:
            q.set_number_of_mem_coefficients(nc)
            ph = np.array(q.get_power_spectrum_phonon())
            for i in range(nm):
                y = ph[:, i]
                fit = fitting_functions[p.fitting_function](f, y, guess_height=np.max(y), guess_position=f[np.argmax(y)])
                r = fit.get_fitting()
                if r['all_good'] and not np.isfinite(r['global_error']):
                    bad[i] += 1
                elif r['all_good']:
                    rows[i].append([nc, r['width'], r['global_error'], r['area'], r['peak_position']])
                    spectra[i, nc] = y
        p.use_symmetry = sym
        q.select_power_spectra_algorithm(0 if alg else 1)
        q.set_number_of_mem_coefficients(3)
        q.select_power_spectra_algorithm(alg)
        q.set_number_of_mem_coefficients(mem)
    figs = {i: f_ for i, f_ in zip(sorted(blocks), figs)}
    for i in range(nm):
        r = np.array(rows[i])
        if np.max(np.abs([spectra.get((i, nc), np.zeros(1)) for nc in scan if (i, nc) in spectra] or [0])) < 1e-12:
            continue                # a mode without motion
        if len(r) + bad[i] < len(scan) or not len(r) or r[:, 2].max() > .1 or i not in blocks:
            continue                # a fit at the edge of failing
        w = np.sqrt(1 / r[:, 2])
        best = int(np.argmin(r[:, 2]))
        if len(r) > 1 and np.sort(r[:, 2])[1] < np.sort(r[:, 2])[0] * 1.0001:
            continue
        b = blocks[i]
        if DEBUG:
            print(i, scan, r, b, w, sym)
        mon.close('mem_scan', b['Estimated width'], np.sum(w * r[:, 1]) / w.sum(), rtol=1e-2, info=info)
        mon.close('mem_scan', b['Coefficients num (best fit)'], r[best, 0], rtol=0, info=info)
        mon.close('mem_scan', b['Area (best fit)'], r[best, 3], rtol=1e-2, info=info)
        mon.close('mem_scan', b['Position (best fit)'], r[best, 4], rtol=1e-3, atol=1e-4, info=info)
        ax = figs[i]
        has(mon, 'mem_scan', ax[0].lines, r[:, 0], r[:, 1], 'widths of mode %d %s' % (i, info), rtol=1e-2)
        has(mon, 'mem_scan', ax[2].lines, f, spectra[i, int(r[best, 0])], 'best spectrum of mode %d %s' % (i, info), rtol=1e-3)


def out_count(q, cr, scan):
    return None


PLOTS = {f.__name__: f for f in (p_trajectory, p_energy, p_projection, p_spectra, p_dos, p_bands, p_renormalized, p_widths, p_mesh,
                                 p_eigenvectors, p_distribution, p_boltzmann, p_peaks, p_scan)}
