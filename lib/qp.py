"""Quasiparticle objects for the checks."""
import numpy as np
from lib import crystal as cr


def reset_parameters():
    from dynaphopy.parameters import Parameters
    p = Parameters()
    p.__init__()
    return p


def make(dyn, vc=None, last_steps=None, keep=False, **params):
    """A fresh analysis with default settings, then `params` set on its parameters."""
    import dynaphopy
    if not keep:
        reset_parameters()
    with cr.quiet():
        q = dynaphopy.Quasiparticle(dyn, last_steps=last_steps, vc=vc)
    q.parameters.silent = True
    for k, v in params.items():
        assert hasattr(type(q.parameters), k), k
        setattr(q.parameters, k, v)
    return q


def harmonic_case(rng, crystal, sc, nsteps, dt, cutoff=3.6, temperature=None, wrap=True, kl=(4., 9.), kt=(.3, 1.2),
                  velocity=True, memmap=False, primitive=True):
    """(structure, dynamics, Harmonic, fc, x, v): exact normal-mode motion."""
    fc = crystal.spring_fc(sc, cutoff, rng, kl, kt)
    h = cr.Harmonic(crystal, fc, sc)
    t, x, v = h.trajectory(rng, nsteps, dt, temperature or rng.uniform(50, 400))
    s = cr.to_structure(crystal, fc, sc, primitive=primitive)
    w = rng.integers(-1, 2, size=(1, len(h.m), 3)) if wrap else None
    d = cr.to_dynamics(crystal, s, sc, disp=x, velocity=v if velocity else None, dt=dt, wrap=w, memmap=memmap)
    return s, d, h, fc, x, v


def maxwell_velocity(rng, masses, nsteps, temperature):
    """Uncorrelated Maxwell-Boltzmann velocities, A/ps."""
    s = np.sqrt(cr.KB_EV * temperature / cr.KIN_EV / np.asarray(masses))
    return rng.normal(size=(nsteps, len(masses), 3)) * s[None, :, None]


def kinetic(masses, v):
    """mean kinetic energy, eV."""
    return 0.5 * cr.KIN_EV * float((np.abs(v) ** 2 * np.asarray(masses)[None, :, None]).sum() / len(v))


def springs(crystal, sc, rng, cutoff=3.8, **kw):
    """Pair-spring force constants reaching every atom's neighbours (the cut-off grows until they do)."""
    while True:
        fc = crystal.spring_fc(sc, cutoff, rng, **kw)
        n = len(fc)
        stiff = np.array([np.linalg.eigvalsh(fc[i, i]).min() for i in range(n)])
        if stiff.min() > .05 or cutoff > 8 or n < 2:
            return fc
        cutoff += .5
