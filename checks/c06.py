"""C06  FFT spectra."""
import contextlib
import io
import re
import sys
import types

import numpy as np

RULE = ('random signals (N 20..3000, any resolution including finer than available, single and many pieces, odd and even '
        'piece sizes, complex) through the numpy and FFTW engines against a reference written from the definition (own '
        'zero-padded autocorrelation); the CUDA and CuPy engines on stand-ins of their libraries; the resolution reported as available. Non-trivial: a distinct (number of pieces class, parity, N class, type) combination')
ASSUMPTIONS = ['the libraries of the GPU engines (cupy, cuda_functions) are not installed: stand-ins compute with numpy', 'piece boundaries that fall exactly on a sample may be rounded either way']
MONITORS = ['definition', 'engines', 'gpu_engines', 'column_independence', 'silent', 'resolution_told']
MIN_NONTRIVIAL = 25


def generate(tier, seed):
    k = 3 if tier == 'quick' else 20
    return [{'kind': 'fft', 'seed': seed * 3001 + i, 'n': 4} for i in range(40 * k)]


@contextlib.contextmanager
def gpu_stand_ins():
    """the libraries of the GPU engines, computing with numpy"""
    cupy = types.ModuleType('cupy')
    for n in ('asarray', 'array', 'correlate', 'abs', 'fft', 'average', 'mean', 'stack', 'argsort', 'interp'):
        setattr(cupy, n, getattr(np, n))
    cupy.__getattr__ = lambda n: getattr(np, n)
    cupy.asnumpy = np.array
    cuda = types.ModuleType('cuda_functions')
    cuda.cuda_acorrelate = lambda x, mode='same': np.correlate(x, x, mode=mode)
    cuda.cuda_fft = lambda x: np.fft.fft(x)
    old = {k: sys.modules.get(k) for k in ('cupy', 'cuda_functions')}
    sys.modules.update(cupy=cupy, cuda_functions=cuda)
    try:
        yield
    finally:
        for k, m in old.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


def run_case(case, mon):
    from lib import spectra as sp
    from lib import crystal as cr
    from checks.c04 import signal
    from dynaphopy.power_spectrum import power_spectrum_functions as psf
    from dynaphopy.dynamics import Dynamics
    rng = np.random.default_rng(case['seed'])
    for _ in range(case['n']):
        n = int(rng.choice([20, 51, 100, 333, 801, 1500, 3000, int(10 ** rng.uniform(1.5, 4.3))])) + int(rng.integers(0, 7))
        dt = float(rng.choice([.0005, .001, .002, .01, .00241888, .00033333]))
        T = n * dt
        pieces = float(rng.choice([.3, .9, 1.05, 1.7, 2.4, 3.3, 5.1, 9.7]))
        res = pieces / T
        if round(1. / (dt * res)) < 8:
            res = 1. / (dt * 8)
        fmax = rng.uniform(.2, .7) / dt
        nf = int(min(400, max(3, fmax / res)))
        f0 = float(rng.choice([0, 0, -.3 * fmax, .1 * fmax]))
        fr = f0 + res * np.arange(nf)
        vq = np.array([signal(rng, n, dt)[0] for c in range(3)]).T
        if n > 4000:
            vq[-n // 6:] *= 3          # the end of a long trajectory counts
        silent = bool(rng.integers(2))
        P = sp.parameters(frequency_range=fr, silent=silent)
        with cr.quiet():
            dyn = Dynamics(structure=cr.to_structure(cr.named_crystal('sc')), time=np.arange(n) * dt)
            with contextlib.redirect_stdout(io.StringIO()) as out:
                a = np.asarray(psf[2][0](vq, dyn, P))
            b = np.asarray(psf[3][0](vq, dyn, P))
            P.silent = not silent
            a2 = np.asarray(psf[2][0](vq, dyn, P))
            with gpu_stand_ins():
                g = [np.asarray(psf[k][0](vq, dyn, P)) for k in (4, 5)]
            other = vq.copy()
            other[:, [0, 2]] = np.random.default_rng(1).normal(size=(n, 2)) * 9
            d = np.asarray(psf[2 + int(rng.integers(2))][0](other, dyn, P))
        p, starts = sp.fft_pieces(n, fr[1] - fr[0], dt)
        info = 'n=%d dt=%g resolution %.4g (piece %d, %d pieces)' % (n, dt, res, p, len(starts))
        mon.same('silent', a2, a, info=info)
        mon.close('engines', b, a, rtol=1e-8, info=info)
        for name, x in zip(('CUDA', 'CuPy'), g):
            mon.close('gpu_engines', x, a, rtol=1e-8, info=name + ' ' + info)
        told = re.findall(r'maximum: *([-+0-9.e]+)', out.getvalue())
        step = fr[1] - fr[0]
        if abs(step * T - 1) > 1e-9:
            mon.check('resolution_told', bool(told) == (step < 1 / T), 'resolution %g asked of %g available: %r %s' % (step, 1 / T, out.getvalue()[:200], info))
        for x in told:
            mon.check('resolution_told', abs(float(x) - 1 / T) < 1e-6 + 1e-6 / T, '%s instead of %g %s' % (x, 1 / T, info))
        mon.close('column_independence', d[:, 1], a[:, 1], rtol=1e-8, info=info)
        for c in range(3):
            want = [sp.fft_reference(fr, vq[:, c], dt, nu) * cr.KIN_EV for nu in (0., 1e-7, -1e-7)]
            s = want[0].max()
            ok = any(a[:, c].shape == w.shape and np.abs(a[:, c] - w).max() < 3e-5 * s for w in want)
            if ok:
                mon.evals += 1
                mon.seen('definition')
            else:
                mon.close('definition', a[:, c], want[0], rtol=3e-5, info=info)
        mon.nontrivial(len(starts) if len(starts) < 6 else 'many', p % 2, n > 500, f0 < 0)
    mon.observe(n=n, piece=p, pieces=len(starts), resolution=res, value=float(a[0, 0]), reference=float(want[0][0]))
