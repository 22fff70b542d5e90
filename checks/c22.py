"""C22  Peak analysis recovers the line shapes it is given."""
import contextlib
import io
import re

import numpy as np

RULE = ('(exact) spectra that are exact instances of every offered line shape over random windows, resolutions, positions, widths, areas and positive '
        'or negative base lines: every reported value against the parameters put in and against the reported curve measured independently; (noisy) the reported '
        'width, area and height against the reported curve; (analysis) sets of modes with random degeneracies, in random order, some without '
        'a peak, against fits of each peak on its own. Non-trivial: a distinct spectrum')
ASSUMPTIONS = ['peaks at least one grid spacing wide, a width away from the window limits; asymmetric ones at least three spacings and 0.03 THz', 'heights count from the base line or from zero',
               'areas count from zero frequency to the end of the window for shapes with long tails']
MONITORS = ['fitted', 'position', 'width', 'area', 'height', 'base_line', 'curve', 'asymmetry', 'measured_width', 'measured_area', 'set_average',
            'set_identical', 'others_unaffected', 'failure_alone', 'order', 'thermal_shift', 'printed', 'occupation', 'energy', 'repeatable']
MIN_NONTRIVIAL = 150
CPU_LIMIT = 300


def generate(tier, seed):
    k = 1 if tier == 'quick' else 15
    return ([{'kind': 'exact', 'shape': i % 3, 'seed': seed * 1409 + i} for i in range(150 * k)] +
            [{'kind': 'noisy', 'shape': i % 3, 'seed': seed * 1423 + i} for i in range(90 * k)] +
            [{'kind': 'analysis', 'shape': i % 3, 'seed': seed * 1427 + i} for i in range(150 * k)])


def shape(kind, f, p, w, A, d, s=0.0):
    """Line shapes of full width w, area about A."""
    if kind == 0:
        return A / np.pi * (w / 2) / ((f - p) ** 2 + w * w / 4) + d
    if kind == 1:
        g = w / (1 + np.exp(s * (f - p)))
        return A / np.pi * g / (g * g + (f - p) ** 2) + d
    return 2 / np.pi * A * w * p * p / ((p * p - f * f) ** 2 + (w * f) ** 2) + d


def draw(rng, kind, res=None, lo=None, hi=None):
    """grid and a peak on it"""
    while True:
        r = float(rng.choice([.005, .01, .05, .1, .2])) if res is None else res
        h = float(rng.uniform(3, 60)) if hi is None else hi
        l_ = (0.0 if rng.integers(2) else float(h * rng.uniform(0, .3))) if lo is None else lo
        if not 60 < (h - l_) / r < 8000:
            continue
        w = r * float(10 ** rng.uniform(.1, 2))
        if w > .12 * (h - l_) or w > 3 or w < 1.5e-4 * h or (kind == 1 and w < max(.03, 3 * r)):
            continue
        a, b = l_ + max(1.5 * w, .2), h - 1.5 * w
        if kind == 1:
            a, b = l_ + max(4 * w, .5), h - max(4 * w, .5)
        if kind == 2:
            a = max(a, 5 * w)
        if a >= b:
            continue
        p = float(rng.uniform(a, b))
        A = float(10 ** rng.uniform(-4, 1))
        d = 0.0 if rng.integers(3) == 0 else A / w * float(rng.uniform(-.02, .05))
        s = float(rng.uniform(-.3, .3) / max(1, w)) if kind == 1 and rng.integers(2) else 0.0
        f = np.arange(l_, h + r, r)
        return f, p, w, A, d, s, r


def measured(curve, d, p, w, lo, hi):
    """height above the base, position, full width at half height and area of a curve (a function), by bisection and quadrature"""
    x = np.linspace(p - 2 * w, p + 2 * w, 40001)
    y = curve(x) - d
    i = int(np.argmax(y))
    half = y[i] / 2
    left = x[:i][y[:i] < half]
    right = x[i:][y[i:] < half]
    full = right[0] - left[-1] if len(left) and len(right) else np.nan
    # substitution t = atan((x-p)/w) keeps narrow peaks resolved
    t = np.linspace(np.arctan((lo - p) / w), np.arctan((hi - p) / w), 40001)
    z = (curve(p + w * np.tan(t)) - d) * w / np.cos(t) ** 2
    area = float(((z[1:] + z[:-1]) / 2 * np.diff(t)).sum())
    return y[i], x[i], full, area


def fit(kind, f, y):
    from dynaphopy.analysis.fitting.fitting_functions import fitting_functions
    o = fitting_functions[kind](f, y, guess_position=f[int(np.argmax(y))], guess_height=float(np.max(y)))
    return o, o.get_fitting()


def consistent(mon, kind, o, r, f, info):
    """what is reported against the reported curve"""
    d = float(r['base_line'])
    w = abs(float(r['width']))
    p = float(r['peak_position'])
    h, x, full, area = measured(o.get_curve, d, p, w, 0.0, float(f[-1]))
    asym = abs(float(r.get('asymmetry', 0.0))) * w
    # damped oscillators and asymmetric peaks are b wide up to terms in b/a and s b
    tol = 2e-3 if kind == 0 else (.02 + asym ** 2 if kind == 1 else .02 + 2 * w / p)
    mon.close('measured_width', w, full, rtol=tol, info=info)
    if kind == 0:
        h0, x0, full0, area = measured(o.get_curve, d, p, w, p - 2e5 * w, p + 2e5 * w)
    mon.close('measured_area', float(r['area']), area, rtol=1e-3 if kind == 0 else 1e-2, info=info)
    top = float(r['maximum'])
    mon.check('height', min(abs(top - h), abs(top - h - d)) < 2e-3 * abs(h) + (2 * w / p) ** 2 * abs(h) * (kind == 2), '%g instead of %g (+ base %g) %s' % (top, h, d, info))
    mon.check('position', abs(p - x) < 2e-3 * w + (kind == 2) * 2 * w * w / p, 'reported %g, curve largest at %g %s' % (p, x, info))


def exact(case, mon, rng):
    k = case['shape']
    for _ in range(3):
        f, p, w, A, d, s, res = draw(rng, k)
        y = shape(k, f, p, w, A, d, s)
        keep = y.copy()
        o, r = fit(k, f, y)
        info = 'shape %d p %.6g w %.4g A %.4g d %.4g s %.3g, grid %.4g to %.4g by %g' % (k, p, w, A, d, s, f[0], f[-1], res)
        mon.same('repeatable', y, keep)
        if not mon.check('fitted', r.get('all_good') is True, 'an exact line shape is reported as failed: ' + info):
            continue
        h = A * 2 / np.pi / w
        mon.close('curve', o.get_curve(f), y, rtol=1e-5, scale=h, info=info)
        mon.close('base_line', float(r['base_line']), d, rtol=1e-5, scale=h, info=info)
        if k == 1:
            # position and width at the largest value of the shape
            x = np.linspace(p - 2 * w, p + 2 * w, 40001)
            q = x[int(np.argmax(shape(k, x, p, w, A, 0, s)))]
            wide = 2 * w / (1 + np.exp(s * (q - p)))
            mon.close('asymmetry', float(r['asymmetry']), s, rtol=0, atol=1e-3 / w, info=info)
            mon.close('position', float(r['peak_position']), q, rtol=0, atol=2e-3 * w, info=info)
            mon.close('width', float(r['width']), wide, rtol=2e-3, info=info)
        else:
            mon.close('position', float(r['peak_position']), p, rtol=0, atol=1e-4 * w, info=info)
            mon.close('width', float(r['width']), w, rtol=1e-4, info=info)
        if k == 0:
            mon.close('area', float(r['area']), A, rtol=1e-4, info=info)
            mon.check('height', min(abs(r['maximum'] - h), abs(r['maximum'] - h - d)) < 1e-4 * h, '%g instead of %g' % (r['maximum'], h))
        else:
            mon.close('area', float(r['area']), measured(lambda z: shape(k, z, p, w, A, 0, s), 0, p, w, 0., float(f[-1]))[3], rtol=1e-2, info=info)
        consistent(mon, k, o, r, f, info)
        o2, r2 = fit(k, f, y)
        mon.close('repeatable', [r2[n] for n in ('peak_position', 'width', 'area', 'maximum', 'base_line')],
                  [r[n] for n in ('peak_position', 'width', 'area', 'maximum', 'base_line')], rtol=0)
        mon.nontrivial('exact', k, p, w, A, d, s, res)
        mon.observe(position=p, width=w, got={n: float(v) for n, v in r.items() if np.ndim(v) == 0 and n != 'all_good'})


def noisy(case, mon, rng):
    k = case['shape']
    for _ in range(3):
        f, p, w, A, d, s, res = draw(rng, k)
        if w < 4 * res:
            continue
        y0 = shape(k, f, p, w, A, d, s)
        level = float(rng.choice([.001, .01]))
        y = y0 + level * (y0.max() - d) * rng.normal(size=len(f))
        o, r = fit(k, f, y)
        info = 'noise %g, shape %d p %.6g w %.4g A %.4g d %.4g s %.3g, grid %.4g to %.4g by %g' % (level, k, p, w, A, d, s, f[0], f[-1], res)
        if not mon.check('fitted', r.get('all_good') is True, info):
            continue
        c = float(np.abs(o.get_curve(f) - y0).max() / y0.max())
        mon.check('curve', c < 25 * level, 'curve differs by %g %s' % (c, info))
        mon.check('position', abs(r['peak_position'] - p) < 12 * level * w + .1 * w * (k == 1), '%g instead of %g %s' % (r['peak_position'], p, info))
        consistent(mon, k, o, r, f, info)
        mon.nontrivial('noisy', k, p, w, level)


def analysis(case, mon, rng):
    from dynaphopy.analysis.fitting import phonon_fitting_analysis, degenerate_sets
    k = case['shape']
    res = float(rng.choice([.02, .05, .1]))
    hi = float(rng.uniform(8, 30))
    n = int(rng.integers(1, 9))
    # degenerate groups of harmonic frequencies
    groups = []
    left = n
    while left:
        g = int(rng.integers(1, min(4, left) + 1))
        groups.append(g)
        left -= g
    label = np.repeat(np.arange(len(groups)), groups)
    base = np.cumsum(rng.uniform(6e-4, 3., len(groups))) + rng.uniform(.5, 2)
    freq = base[label] + rng.uniform(-4e-5, 4e-5, n)
    chained = rng.integers(3) == 0        # each mode degenerate with the next one (ascending, as phonopy gives them)
    if chained:
        freq = base[label] + np.concatenate([np.arange(g) for g in groups]) * rng.uniform(6e-5, 9e-5)
    order = rng.permutation(n) if rng.integers(2) and not chained else np.arange(n)
    label, freq = label[order], freq[order]
    f = None
    spectra = []
    param = []
    dead = {}
    for g in range(len(groups)):
        if rng.integers(6) == 0:
            dead[g] = str(rng.choice(['zero', 'flat']))
    for i in range(n):
        f, p, w, A, d, s, _ = draw(rng, k, res=res, lo=0.0, hi=hi)
        if i and rng.integers(2):        # members of a set share their line more or less
            p, w = param[0][:2] if label[i] == label[0] else (p, w)
        param.append((p, w, A, d))
        spectra.append(shape(k, f, p, w, A, d, s) if label[i] not in dead else np.full(len(f), 0.0 if dead[label[i]] == 'zero' else A))
    data = np.array(spectra).T.copy()
    keep = data.copy()
    deg = bool(rng.integers(4))
    shift = rng.normal(size=n) * .2 if rng.integers(3) == 0 else None
    out = io.StringIO()
    occupancy = bool(rng.integers(2))
    with contextlib.redirect_stdout(out):
        r = phonon_fitting_analysis(data, f, harmonic_frequencies=freq.copy(), thermal_expansion_shift=None if shift is None else shift.copy(),
                                    fitting_function_type=k, show_plots=False, use_degeneracy=deg, show_occupancy=occupancy)
    mon.same('repeatable', data, keep)
    sets = degenerate_sets(freq)
    want_sets = sorted([sorted(np.where(label == g)[0].tolist()) for g in range(len(groups))])
    mon.check('set_average', sorted(sorted(int(x) for x in q) for q in sets) == want_sets, '%s instead of %s (%s)' % (sets, want_sets, freq))
    text = out.getvalue()
    parts = re.split(r'\n(?=Peak # )|(?<=\n)(?=Warning)', text)
    failed = [int(m) for m in re.findall(r'not successful in peak #(\d+)', text)]
    for i in range(n):
        y = data[:, label == label[i]].mean(axis=1) if deg else data[:, i]
        with contextlib.redirect_stdout(io.StringIO()):
            o, single = fit(k, f, y)
        info = 'mode %d of %d, set %s, shape %d, degeneracy %s' % (i, n, np.where(label == label[i])[0].tolist(), k, deg)
        if not single['all_good']:
            mon.check('failure_alone', r['positions'][i] == 0 and r['widths'][i] == 0 and r['dt_Q2'][i] == 0 and i + 1 in failed, '%s %s' % (failed, info))
            continue
        mon.check('failure_alone', i + 1 not in failed, info)
        s = 0 if shift is None else shift[i]
        mon.close('set_average' if deg else 'others_unaffected', [r['positions'][i] - s, r['widths'][i], r['dt_Q2'][i]],
                  [single['peak_position'], single['width'], 2 * single['area']], rtol=1e-9, atol=1e-12, info=info)
        mon.close('energy', r['dt_Q2'][i], 2 * single['area'], rtol=1e-9, atol=1e-300, info=info)
        if (label == label[i]).sum() == 1 or not deg:
            if label[i] not in dead:
                p, w, A, d = param[i]
                if k != 1:
                    mon.close('others_unaffected', [r['positions'][i] - s, r['widths'][i]], [p, w], rtol=0, atol=2e-3 * w, info=info)
        m = re.search(r'Peak # %d\n-+\n(.*?)(?=\n\nPeak|\nWarning|\Z)' % (i + 1), text, re.S)
        if mon.check('printed', m is not None, 'no section for %s' % info):
            def val(n_):
                g = re.search(r'^%s.*?\s(-?\d+\.\d+|nan|-?inf)( |$)' % re.escape(n_), m.group(1), re.M)
                return float(g.group(1)) if g else np.nan
            got = [val('Width'), val('Position'), val('Base line'), val('Maximum height'), val('<|dQ/dt|^2>'), val('Frequency shift ')]
            want = [single['width'], single['peak_position'], single['base_line'], single['maximum'], 2 * single['area'], single['peak_position'] - freq[i]]
            mon.close('printed', got, want, rtol=1e-7, atol=2e-6, info=info + m.group(1)[:300])
            # (eleven significant letters of the shape's name)
            got = [float(x) for x in re.findall(r'^Area .*?(-?\d+\.\d+|nan|-?inf) eV$', m.group(1), re.M)] + [val('Fitting global error')]
            total = float(((y[1:] + y[:-1]) / 2 * np.diff(f)).sum())
            rough = float(np.abs(np.diff(y)).sum()) * (f[1] - f[0])          # (the quadrature rule is not specified)
            if mon.check('printed', len(got) == 3, '%d areas: %s' % (len(got) - 1, m.group(1)[:400])):
                mon.close('printed', [got[0], got[2]], [single['area'], single['global_error']], rtol=1e-7, atol=2e-6, info=info + m.group(1)[:300])
                mon.close('printed', got[1], total, rtol=1e-6, atol=2e-6 + .5 * rough, info='area under the spectrum, ' + info)
            mon.close('printed', r['error'][i], single['global_error'] / single['maximum'], rtol=1e-7, info='error, ' + info)
            mon.check('occupation', ('Occupation number' in m.group(1), 'Fit temperature' in m.group(1)) == (occupancy,) * 2, m.group(1))
            if occupancy:
                judge_occupation(mon, val('Occupation number'), val('Fit temperature'), 2 * single['area'], single['peak_position'], info)
            if k == 1:
                mon.close('printed', val('Peak asymmetry'), single['asymmetry'], rtol=1e-7, atol=2e-6, info=info)
            if shift is not None:
                mon.close('printed', val('Frequency shift (+T. exp.)'), single['peak_position'] - freq[i] + s, rtol=1e-7, atol=2e-6, info=info)
        if shift is not None:
            mon.close('thermal_shift', r['positions'][i], single['peak_position'] + s, rtol=1e-9, info=info)
    if deg:
        for q in want_sets:
            for a in q[1:]:
                s0, s1 = (0, 0) if shift is None else (shift[q[0]], shift[a])
                if r['widths'][a] == 0:
                    s0 = s1 = 0
                mon.close('set_identical', [r['positions'][a] - s1, r['widths'][a], r['dt_Q2'][a]],
                          [r['positions'][q[0]] - s0, r['widths'][q[0]], r['dt_Q2'][q[0]]], rtol=1e-9, atol=1e-12)
    # the same modes in another order
    pr = rng.permutation(n)
    with cr_quiet():
        r2 = phonon_fitting_analysis(data[:, pr], f, harmonic_frequencies=freq[pr], thermal_expansion_shift=None if shift is None else shift[pr],
                                     fitting_function_type=k, show_plots=False, use_degeneracy=deg)
    # (the average of different lines may have several best fits)
    own = [j for j in range(n) if label[pr[j]] not in dead and (not deg or (label == label[pr[j]]).sum() == 1)]
    for n_ in ('positions', 'widths', 'dt_Q2'):
        mon.close('order', np.array(r2[n_])[own], np.array(r[n_])[pr][own], rtol=1e-5, atol=1e-9, info=n_)
    mon.nontrivial('analysis', case['seed'])
    mon.observe(modes=n, sets=want_sets, positions=[float(x) for x in r['positions']], dead=str(dead))


PLANCK, KB = 4.135667662e-3, 8.6173324e-5         # eV/THz, eV/K


def judge_occupation(mon, n, T, energy, p, info):
    """number of phonons n of a harmonic oscillator: energy = quantum (n + 1/2); temperature at which Bose and Einstein expect that number"""
    if not p > 1e-3:
        return
    for quantum, key in ((PLANCK * p, None), (PLANCK * p / 2 / np.pi, 'quantum without two pi')):
        want = energy / quantum - .5
        if abs(n - want) <= 2e-6 + 1e-4 * abs(want):
            break
    else:
        mon.fail('occupation', 'occupation number %r of a mode with %r eV at %r THz %s' % (n, energy, p, info))
        return
    if key:
        mon.fail(key, 'occupation number %r instead of %r for %r eV at %r THz' % (n, energy / PLANCK / p - .5, energy, p))
    else:
        mon.check('occupation', True)
    if want > 1e-3:
        t = quantum / KB / np.log(1 / want + 1)
        mon.check('occupation', abs(T - t) <= 2e-6 + 1e-3 * t, 'fit temperature %r instead of %r for %r phonons at %r THz %s' % (T, t, want, p, info))
    elif -1 < want < 0:
        mon.check('occupation', not np.isfinite(T), 'fit temperature %r below the energy of the ground state %s' % (T, info))


def cr_quiet():
    return contextlib.redirect_stdout(io.StringIO())


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    {'exact': exact, 'noisy': noisy, 'analysis': analysis}[case['kind']](case, mon, rng)
