"""Reference spectra, written from their definitions."""
import numpy as np
from lib.crystal import KIN_EV


def burg_part(x, m):
    """(coefficients, mean square discrepancy, smallest denominator relative to the energy of the signal) of Burg's
    recursion; it ends when nothing is left to predict."""
    x = np.asarray(x, float)
    n = len(x)
    p = np.mean(x ** 2)
    energy = np.sum(x ** 2)
    f = x[1:].copy()
    b = x[:-1].copy()
    a = np.zeros(0)
    dmin = np.inf
    for k in range(1, m + 1):
        den = np.sum(f ** 2) + np.sum(b ** 2)
        dmin = min(dmin, den / energy if energy else 1.0)
        if den <= 1e-14 * energy:
            break
        c = 2 * np.sum(f * b) / den
        p *= 1 - c ** 2
        a = np.concatenate([a - c * a[::-1], [c]])
        f, b = (f - c * b)[1:], (b - c * f)[:-1]
    return a, p, dmin


def mem_reference(freq, v, dt, m):
    """Spectrum (without unit conversion) and a conditioning flag."""
    freq = np.asarray(freq, float)
    out = np.zeros(len(freq))
    ok = True
    for part in (np.real(v), np.imag(v)):
        a, p, dmin = burg_part(part, m)
        if dmin < 1e-7:
            ok = False
        z = np.exp(2j * np.pi * np.outer(freq * dt, np.arange(1, len(a) + 1)))
        den = np.abs(1 - np.dot(z, a)) ** 2
        if (den < 1e-12).any() or (p and p < 1e-10 * np.mean(np.asarray(part) ** 2)):
            ok = False
        if p:
            out += p / den
    return out * dt, ok


def direct_reference(freq, v, dt, step, method):
    """2 * integral of <v*(0) v(t)> exp(i w t), lags every `step`, rule 0 trapezoid / 1 rectangles."""
    freq = np.asarray(freq, float)
    v = np.asarray(v, complex)
    n = len(v)
    tot = np.zeros(len(freq))
    for i in range(0, n, step):
        L = n - i - step
        if L <= 0:
            break
        c0 = np.vdot(v[:L], v[i:i + L])
        f0 = (c0 * np.exp(2j * np.pi * freq * i * dt)).real
        tot += f0
        if method == 1:
            tot += f0
        else:
            c1 = np.vdot(v[:L], v[i + step:i + step + L])
            f1 = (c1 * np.exp(2j * np.pi * freq * (i + step) * dt)).real
            tot += (f0 + f1) / 2
    return tot * dt


def fft_pieces(n, resolution, dt, nudge=0.0):
    p = int(round(1. / (dt * resolution)))
    k = int((n - 1) / p) if p > 0 else 0
    if k <= 0:
        return n, [0]
    starts = [int(np.floor(i * (n - p) / float(k) + nudge)) for i in range(k + 1)]
    starts = [min(max(s, 0), n - p) for s in starts]
    return p, starts


def fft_reference(freq, v, dt, nudge=0.0):
    freq = np.asarray(freq, float)
    v = np.asarray(v, complex)
    n = len(v)
    p, starts = fft_pieces(n, freq[1] - freq[0], dt, nudge)
    acc = 0
    for s in starts:
        x = v[s:s + p]
        pad = np.concatenate([x, np.zeros(p)])
        F = np.fft.fft(pad)
        c = np.fft.ifft(np.abs(F) ** 2)        # circular: c[l] = sum x[n+l] conj x[n]
        lags = np.arange(-(p // 2), p - p // 2)
        c = c[lags % (2 * p)] / p
        f = np.fft.fftfreq(p, dt)
        S = np.abs(np.fft.fft(np.fft.ifftshift(c))) * dt
        acc = acc + S
    acc = acc / len(starts)
    f = np.fft.fftfreq(p, dt)
    o = np.argsort(f)
    return np.interp(freq, f[o], acc[o])


def parameters(**kw):
    from dynaphopy.parameters import Parameters
    P = Parameters()
    for k, v in kw.items():
        setattr(P, k, v)
    return P
