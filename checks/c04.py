"""C04  MEM = Burg."""
import numpy as np

RULE = ('random signals (1..6 damped or undamped oscillations plus noise; real, imaginary, complex; N 6..900) with 0..N-2 '
        'coefficients through the kernel and the analysis wrapper, against a reference Burg recursion written from its '
        'definition, at amplitudes from 1e-7 to 120. Signals where the recursion is ill conditioned (energy left to predict under 1e-7 of the signal, '
        'residual under 1e-10) are skipped there; perfectly predictable signals (pure oscillations) are checked for their peak position and scaling. Non-trivial: a distinct (N class, order class, signal type, path) combination with a non-flat spectrum')
ASSUMPTIONS = ['when less than 1e-14 of the energy of a signal is left to predict the recursion ends there']
MONITORS = ['burg', 'predictable', 'wrapper', 'even', 'positive', 'scaling', 'first_last_sample', 'too_many']
MIN_NONTRIVIAL = 25


def generate(tier, seed):
    k = 3 if tier == 'quick' else 20
    return ([{'kind': 'kernel', 'seed': seed * 5003 + i, 'n': 14} for i in range(24 * k)] +
            [{'kind': 'wrapper', 'seed': seed * 5003 + 700 + i, 'n': 3} for i in range(16 * k)])


def signal(rng, n, dt, kind=None):
    t = np.arange(n) * dt
    fn = .5 / dt
    v = np.zeros(n, complex)
    for _ in range(int(rng.integers(1, 6))):
        f = rng.uniform(-.9, .9) * fn
        v += rng.normal() * np.exp(1j * (2 * np.pi * f * t + rng.uniform(0, 6.3)) - t * rng.uniform(0, 2) / (n * dt))
    v += rng.uniform(.02, .6) * (rng.normal(size=n) + 1j * rng.normal(size=n))
    v *= rng.choice([1., 1., 7., 120., 1e-3, 1e-5, 1e-7])
    kind = kind or str(rng.choice(['complex', 'complex', 'real', 'imag']))
    if kind == 'real':
        v = v.real + 0j
    if kind == 'imag':
        v = 1j * v.imag
    return v, kind


def run_case(case, mon):
    from lib import spectra as sp
    from lib import crystal as cr
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'kernel':
        from dynaphopy.power_spectrum import mem
        for _ in range(case['n']):
            n = int(rng.choice([6, 10, 25, 60, 130, 300, 900, int(10 ** rng.uniform(1.2, 4))]))
            dt = float(rng.choice([.0005, .001, .005, .02, 1., .00241888]))
            v, kind = signal(rng, n, dt)
            m = min(int(rng.choice([0, 1, 2, 3, max(1, n // 5), n // 3, n // 2, n - 2])), 1500)
            if rng.integers(5) == 0:          # weight the first and last samples
                v[0] *= 5
                v[-1] *= 4
            fr = np.sort(rng.uniform(-.7, .7, 30)) / dt
            want, ok = sp.mem_reference(fr, v, dt, m)
            if not ok:
                mon.count('ill_conditioned')
                continue
            got = mem.mem(fr, v, dt, coefficients=m)
            info = 'n=%d m=%d dt=%g %s' % (n, m, dt, kind)
            w = np.maximum(want, 1e-300)
            mon.close('burg', got / w, want / w, rtol=0, atol=2e-5, info=info)
            mon.check('positive', (got >= 0).all(), info)
            mon.close('even', mem.mem(-fr, v, dt, coefficients=m) / w, got / w, rtol=0, atol=1e-7, info=info)
            a = float(rng.choice([2., -3., 11., 1e-4, 1e-6, 3e5]))
            mon.close('scaling', mem.mem(fr, a * v, dt, coefficients=m) / w / (a * a), got / w, rtol=1e-4, info='%s factor %g' % (info, a))
            # every sample counts: zeroing the first or the last one must change what it should
            for pos in (0, -1):
                x = v.copy()
                x[pos] = x[pos] * 3 + 1 + 1j * (kind != 'real') * 2 if kind != 'imag' else x[pos] * 3 + 2j
                want2, ok2 = sp.mem_reference(fr, x, dt, m)
                if ok2:
                    w2 = np.maximum(want2, 1e-300)
                    mon.close('first_last_sample', mem.mem(fr, x, dt, coefficients=m) / w2, want2 / w2, rtol=0, atol=2e-5, info=info)
            if np.ptp(want) > .1 * want.max():
                mon.nontrivial('kernel', n, m > n // 4, m > 3, kind)
        # pure oscillations: all but rounding is predictable, the peak must still stand at the frequency
        n = int(rng.choice([60, 300, 1200]))
        dt = float(rng.choice([.0005, .00241888, .02]))
        f0 = float(rng.uniform(.06, .42)) / dt
        amp = float(10. ** rng.uniform(-6, 2))
        x = amp * np.exp(1j * (2 * np.pi * f0 * np.arange(n) * dt + rng.uniform(0, 6)))
        if rng.integers(2):
            x = x.real + 0j
        m = int(rng.choice([4, 12, n // 3]))
        fr = np.arange(.02, .47, .0025) / dt
        got = mem.mem(fr, x, dt, coefficients=m)
        info = 'pure oscillation n=%d m=%d dt=%g f=%g amplitude=%g' % (n, m, dt, f0, amp)
        mon.check('predictable', np.isfinite(got).all() and got.max() > 0, info + ': no spectrum')
        mon.check('predictable', abs(fr[got.argmax()] - f0) < max(.0051, 1.5 / n) / dt, info + ': peak at %g' % fr[got.argmax()])
        mon.observe(n=n, coefficients=m, got=[float(x) for x in got[:3]], want=[float(x) for x in want[:3]])
        return
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    for _ in range(case['n']):
        n = int(rng.choice([120, 333, 700]))
        dt = float(rng.choice([.001, .002, .01, .00241888]))
        m = int(rng.choice([5, 30, 100]))
        cols, refs, oks = [], [], []
        fr = np.arange(0, .45 / dt, .45 / dt / int(rng.choice([20, 57])))
        for c in range(3):
            v, kind = signal(rng, n, dt)
            cols.append(v)
        vq = np.array(cols).T
        if rng.integers(2):
            vq = np.asfortranarray(vq)
        P = sp.parameters(frequency_range=fr, silent=bool(rng.integers(2)), number_of_coefficients_mem=m)
        d = cr.to_dynamics(None, object(), None, positions=None, velocity=vq, dt=dt) if False else None
        from dynaphopy.dynamics import Dynamics
        with cr.quiet():
            dyn = Dynamics(structure=cr.to_structure(cr.named_crystal('sc')), time=np.arange(n) * dt)
            got = np.asarray(psf[1][0](vq, dyn, P))
        mon.check('wrapper', got.shape == (len(fr), 3), 'shape %s' % (got.shape,))
        for c in range(3):
            want, ok = sp.mem_reference(fr, vq[:, c], dt, m)
            if ok:
                w = np.maximum(want * cr.KIN_EV, 1e-300)
                mon.close('wrapper', got[:, c] / w, np.ones(len(w)), rtol=0, atol=1e-4, info='n=%d m=%d' % (n, m))
                mon.nontrivial('wrapper', n, m, len(fr))
        # more coefficients than data is refused
        P.number_of_coefficients_mem = n + int(rng.integers(0, 50))
        try:
            with cr.quiet():
                psf[1][0](vq, dyn, P)
            mon.check('too_many', False, '%d coefficients for %d steps accepted' % (P.number_of_coefficients_mem, n))
        except (SystemExit, Exception):
            mon.check('too_many', True)
        P.number_of_coefficients_mem = m
    mon.observe(n=n, coefficients=m, columns=3)
