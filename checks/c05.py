"""C05  Direct method = Fourier transform of the autocorrelation."""
import numpy as np

RULE = ('random signals through the kernel and the wrapper for steps 1..12 and both integration rules, against the '
        'defining sum; single oscillations for the peak position; real decaying oscillations against the FFT algorithm '
        '(pointwise). Non-trivial: a distinct (N class, step, rule, signal type) combination')
ASSUMPTIONS = ['the normalisation by the number of sampled lags may be rounded down (N // step) or exact (N / step)']
MONITORS = ['definition', 'wrapper', 'peak', 'fft_agreement']
MIN_NONTRIVIAL = 25


def generate(tier, seed):
    k = 1 if tier == 'quick' else 8
    return ([{'kind': 'kernel', 'seed': seed * 4001 + i, 'n': 10} for i in range(20 * k)] +
            [{'kind': 'peak', 'seed': seed * 4001 + 300 + i, 'n': 6} for i in range(10 * k)] +
            [{'kind': 'wrapper', 'seed': seed * 4001 + 600 + i, 'n': 2} for i in range(10 * k)] +
            [{'kind': 'fft', 'seed': seed * 4001 + 900 + i} for i in range(8 * k)])


def compare(mon, name, got, tot, n, step, factor, info):
    a, b = tot / (n // step) * factor, tot / (n / float(step)) * factor
    s = float(np.abs(a).max()) + 1e-300
    got = np.asarray(got)
    if got.shape == b.shape and np.abs(got - b).max() <= 1e-7 * s:
        mon.seen(name)
        mon.evals += 1
        return True
    return mon.close(name, got, a, rtol=0, atol=(1e-7 if factor == 1 else 3e-5) * s, info=info)


def run_case(case, mon):
    from lib import spectra as sp
    from lib import crystal as cr
    from checks.c04 import signal
    rng = np.random.default_rng(case['seed'])
    kind = case['kind']
    if kind == 'kernel':
        from dynaphopy.power_spectrum import correlation
        for _ in range(case['n']):
            big = not rng.integers(5)
            n = int(10 ** rng.uniform(2.5, 3.9)) if big else int(rng.choice([13, 40, 60, 121, 240]))
            dt = float(rng.choice([.0005, .002, .01, .1, .00241888, .00033333]))
            v, sk = signal(rng, n, dt)
            step = int(rng.integers(n // 40, n // 8)) if big else int(rng.choice([1, 2, 3, 5, 10, 12]))
            method = int(rng.integers(2))
            fr = np.sort(rng.uniform(-.6, .6, 4 if big else 15)) / dt
            if big:      # the long lags have to count
                v[-n // 8:] += 5 * v[:n // 8 + 2][:len(v[-n // 8:])]
            fr[0] = 0.
            tot = sp.direct_reference(fr, v, dt, step, method)
            info = 'n=%d step=%d rule=%d dt=%g %s' % (n, step, method, dt, sk)
            got = correlation.correlation_par(fr, v, dt, step=step, integration_method=method)
            compare(mon, 'definition', got, tot, n, step, 1, info)
            mon.nontrivial('kernel', n, step, method, sk)
        # documented defaults
        tot = sp.direct_reference(fr, v, dt, 10, 1)
        compare(mon, 'definition', correlation.correlation_par(fr, v, dt), tot, n, 10, 1, 'defaults n=%d' % n)
        mon.observe(n=n, step=step, rule=method, got=[float(x) for x in got[:3]], want=[float(x) for x in (tot / (n // step))[:3]])
        return
    if kind == 'peak':
        from dynaphopy.power_spectrum import correlation
        for _ in range(case['n']):
            n = int(rng.choice([150, 240]))
            dt = .01
            step = int(rng.choice([1, 2, 4]))
            f0 = rng.uniform(2.5, .3 / dt / step)
            t = np.arange(n) * dt
            ph = rng.uniform(0, 6.3)
            typ = int(rng.integers(2))
            v = np.cos(2 * np.pi * f0 * t + ph) + 0j if typ == 0 else np.exp(1j * (2 * np.pi * f0 * t + ph))
            res = .1
            m = int(rng.integers(2))
            fr = np.arange(0, .35 / dt / step, res)
            got = correlation.correlation_par(fr, v, dt, step=step, integration_method=m)
            neg = correlation.correlation_par(-fr, v, dt, step=step, integration_method=m)
            side = got if got.max() > neg.max() else neg
            if typ == 0:
                side = got
                mon.close('peak', neg, got, rtol=1e-6, info='real signal: even spectrum')
            else:
                lo = neg if side is got else got
                mon.check('peak', lo.max() < .3 * side.max(), 'complex oscillation appears on both sides of zero: %.3g, %.3g' % (lo.max(), side.max()))
            fp = fr[int(np.argmax(side))]
            mon.check('peak', abs(fp - f0) < .6 / (n * dt) + res, 'oscillation at %.3f THz peaks at %.3f (n=%d step=%d rule=%d typ=%d)' % (f0, fp, n, step, m, typ))
            mon.nontrivial('peak', n, step, m, typ)
        mon.observe(f0=f0, peak=float(fp))
        return
    if kind == 'wrapper':
        from dynaphopy.power_spectrum import power_spectrum_functions as psf
        from dynaphopy.dynamics import Dynamics
        for _ in range(case['n']):
            n = int(rng.choice([100, 230]))
            dt = float(rng.choice([.001, .004, .00241888]))
            vq = np.array([signal(rng, n, dt)[0] for c in range(3)]).T
            fr = np.linspace(0, .4 / dt, int(rng.choice([7, 30])))
            step, m = int(rng.integers(1, 9)), int(rng.integers(2))
            P = sp.parameters(frequency_range=fr, silent=bool(rng.integers(2)), correlation_function_step=step, integration_method=m)
            with cr.quiet():
                dyn = Dynamics(structure=cr.to_structure(cr.named_crystal('sc')), time=np.arange(n) * dt)
                got = np.asarray(psf[0][0](vq, dyn, P))
            mon.check('wrapper', got.shape == (len(fr), 3), 'shape %s' % (got.shape,))
            for c in range(3):
                compare(mon, 'wrapper', got[:, c], sp.direct_reference(fr, vq[:, c], dt, step, m), n, step, cr.KIN_EV,
                        'n=%d step=%d rule=%d column %d' % (n, step, m, c))
            mon.nontrivial('wrapper', n, step, m)
        mon.observe(n=n, step=step, rule=m)
        return
    if kind == 'fft':
        from dynaphopy.power_spectrum import power_spectrum_functions as psf
        from dynaphopy.dynamics import Dynamics
        # a signal that dies out inside the trajectory: both estimates are the same integral
        n = int(rng.integers(800, 1200))
        dt = float(rng.choice([.004, .00241888, .01]))
        t = np.arange(n) * dt
        tau = n * dt / rng.uniform(14, 20)
        v = np.zeros(n)
        f0 = [rng.uniform(.03, .08) / dt, rng.uniform(.1, .15) / dt]
        for f in f0:
            v += rng.uniform(1, 3) * np.cos(2 * np.pi * f * t + rng.uniform(0, 6)) * np.exp(-t / tau)
        vq = v[:, None] + 0j
        fr = np.arange(0, .17 / dt, .97 / (n * dt))
        P = sp.parameters(frequency_range=fr, silent=True, correlation_function_step=1, integration_method=int(rng.integers(2)))
        with cr.quiet():
            dyn = Dynamics(structure=cr.to_structure(cr.named_crystal('sc')), time=np.arange(n) * dt)
            a = np.asarray(psf[0][0](vq, dyn, P))[:, 0]
            b = np.asarray(psf[2][0](vq, dyn, P))[:, 0]
        d = float(np.abs(a - b).max() / b.max())
        mon.check('fft_agreement', d < .2, 'direct and FFT curves of a real signal differ by %.3f of the maximum (n=%d dt=%g)' % (d, n, dt))
        mon.nontrivial('fft', case['seed'])
        mon.observe(frequencies=[round(float(x), 3) for x in f0], deviation=d)
