"""C21  Thermodynamic functions obey their identities at every temperature."""
import contextlib
import io
import re

import numpy as np

RULE = ('(functions) random densities of states on random grids (odd and even numbers of points, starting at zero or above) over temperatures from '
        '1e-2 to 1e6 K: every function against its oscillator formula evaluated stably and integrated by a quadrature of its own, the identities F=U-TS, S=-dF/dT, C=dU/dT, '
        'and both limits; (dos) random crystals: properties of the analysis against a sum over modes of an independent dynamical matrix on an independent '
        'mesh, per unit cell; normalised, projected, renormalised variants; (md) properties printed for a trajectory. '
        'Non-trivial: a distinct density of states and temperature')
ASSUMPTIONS = ['constants of CODATA 2014 and later (relative tolerance 1e-6)', 'a zero-frequency grid point contributes nothing',
               'mesh and tetrahedron densities of states agree within 2% for temperatures above a tenth of the Debye scale']
MONITORS = ['free_energy', 'entropy', 'heat_capacity', 'total_energy', 'f_is_u_minus_ts', 's_is_dfdt', 'c_is_dudt', 'zero_limit', 'classical_limit',
            'finite', 'mode_sum', 'phonopy_mode_sum', 'normalised', 'projections_add_up', 'renormalised', 'printed', 'dos_from_spectrum', 'repeatable']
MIN_NONTRIVIAL = 100
CPU_LIMIT = 300
NA, KB, H = 6.02214076e23, 1.380649e-23, 6.62607015e-22   # H in J ps


def generate(tier, seed):
    k = 1 if tier == 'quick' else 12
    return ([{'kind': 'functions', 'seed': seed * 1301 + i} for i in range(60 * k)] +
            [{'kind': 'dos', 'seed': seed * 1303 + i} for i in range(24 * k)] +
            [{'kind': 'md', 'seed': seed * 1307 + i} for i in range(16 * k)])


def per_mode(T, f):
    """F, S, C, U of oscillators of frequencies f > 0 (J, J/K)."""
    x = H * f / (KB * T)
    with np.errstate(all='ignore'):
        em = np.exp(-x)
        n = np.where(x < 700, 1 / np.expm1(np.minimum(x, 700)), 0.0)
        F = KB * T * (x / 2 + np.log1p(-em))
        U = H * f * (.5 + n)
        S = KB * (x * n - np.log1p(-em))
        y = np.minimum(x / 2, 350)
        C = KB * (y / np.sinh(y)) ** 2
    return F, S, C, U


def quadrature(y, x):
    """Simpson's rule with the usual correction for an even number of equally spaced points, through scipy only as arithmetic."""
    from scipy.integrate import simpson
    return float(simpson(y, x=x))


def reference(T, f, g):
    """[F kJ/mol, S J/K/mol, C, U kJ/mol]"""
    ok = f > 0
    out = []
    for v, s in zip(per_mode(T, np.where(ok, f, 1.0)), (1e-3, 1, 1, 1e-3)):
        out.append(quadrature(np.where(ok, v * g, 0.0), f) * NA * s)
    return out


def functions(case, mon, rng):
    import dynaphopy.analysis.thermal_properties as thm
    n = int(rng.integers(5, 400))
    fmax = float(10 ** rng.uniform(0, 1.7))
    lo = 0.0 if rng.integers(2) else float(fmax * rng.uniform(.001, .5))
    f = np.linspace(lo, fmax, n)
    k = int(rng.integers(3))
    if k == 0:
        g = rng.uniform(0, 3, n)
    elif k == 1:
        g = (f / fmax) ** 2 * rng.uniform(1, 30)
    else:
        g = np.zeros(n)
        for _ in range(int(rng.integers(1, 5))):
            g += rng.uniform(.1, 4) * np.exp(-.5 * ((f - rng.uniform(lo, fmax)) / (fmax * rng.uniform(.03, .2))) ** 2)
    if lo == 0:
        g[0] = 0
    as_list = bool(rng.integers(4) == 0)
    ff, gg = (f.tolist(), g.tolist()) if as_list else (f, g)
    keep = (np.array(ff), np.array(gg))
    total = quadrature(g, f)
    scale_s = KB * NA * max(abs(total), quadrature(np.abs(g), f)) + 1e-30
    zpe = quadrature(g * H * f / 2, f) * NA / 1000
    for T in 10 ** rng.uniform(-2, 6, 8):
        T = float(T)
        info = 'T %.6g K, %d points from %.4g to %.4g THz' % (T, n, lo, fmax)

        def F(t):
            return float(thm.get_free_energy(t, ff, gg))

        def U(t):
            return float(thm.get_total_energy(t, ff, gg))
        got = [F(T), float(thm.get_entropy(T, ff, gg)), float(thm.get_cv(T, ff, gg)), U(T)]
        mon.check('finite', np.isfinite(got).all() and np.abs(got).max() < 1e12, '%s %s' % (got, info))
        want = reference(T, f, g)
        scale = [abs(zpe) + scale_s * T / 1000 * (1 + abs(np.log(H * fmax / KB / T))), scale_s, scale_s, abs(zpe) + scale_s * T / 1000]
        for name, a, b, s in zip(('free_energy', 'entropy', 'heat_capacity', 'total_energy'), got, want, scale):
            mon.close(name, a, b, rtol=2e-6, scale=s if name != 'entropy' else max(s, abs(b)), info=info)
        mon.close('f_is_u_minus_ts', got[0], got[3] - T * got[1] / 1000, rtol=2e-6, scale=scale[0], info=info)
        dt = T * 1e-4
        mon.close('s_is_dfdt', got[1], -(F(T + dt) - F(T - dt)) / (2 * dt) * 1000, rtol=2e-5, scale=max(scale_s, abs(want[1])), info=info)
        mon.close('c_is_dudt', got[2], (U(T + dt) - U(T - dt)) / (2 * dt) * 1000, rtol=2e-5, scale=scale_s + 1e-11 * abs(zpe) / T * 1e3, info=info)
        mon.nontrivial('functions', case['seed'], T)
    first = f[1] if lo == 0 else lo
    T0 = H * first / KB / 800
    mon.close('zero_limit', [F(T0), U(T0)], [zpe, zpe], rtol=1e-5, info='T %g' % T0)
    mon.close('zero_limit', [float(thm.get_entropy(T0, ff, gg)), float(thm.get_cv(T0, ff, gg))], [0, 0], rtol=0, atol=1e-6 * scale_s, info='T %g' % T0)
    T1 = H * fmax / KB * 300
    mon.close('classical_limit', [float(thm.get_cv(T1, ff, gg)), U(T1) / T1 * 1000], [KB * NA * total] * 2, rtol=2e-5, scale=scale_s, info='T %g' % T1)
    mon.same('repeatable', np.array(ff), keep[0])
    mon.same('repeatable', np.array(gg), keep[1])
    # classical and quantum densities from a spectrum
    T = float(10 ** rng.uniform(0, 4))
    cells = int(rng.integers(1, 200))
    f1 = f if lo > 0 else f[1:]
    p = rng.uniform(0, 1, len(f1))
    e = 1.602176634e-19
    mon.close('dos_from_spectrum', thm.get_dos(T, f1, p, cells), 2 * e * p / (KB * T * cells), rtol=3e-6)
    mon.close('dos_from_spectrum', thm.get_dos(T, f1, p, cells, bose_einstein_statistics=True), 2 * e * p / (per_mode(T, f1)[3] * cells), rtol=3e-6)
    mon.observe(T=T, cells=cells, points=n)


def mode_sum(c, fc, sc, mesh, T, weight=None, correction=None):
    """F, S, C, U per unit cell from a sum over a shifted mesh."""
    from lib import crystal as cr
    import itertools
    tot = np.zeros(4)
    fmax = 0.0
    qs = [(np.array(i) + .5) / mesh - .5 for i in itertools.product(*[range(m) for m in mesh])]
    low = 1e9
    for q in qs:
        D = cr.dyn_matrix(c, fc, sc, q)
        w, v = np.linalg.eigh(D)
        f = np.sign(w) * np.sqrt(np.abs(w)) * cr._v
        low = min(low, f.min())
        fmax = max(fmax, f.max())
        f = np.maximum(f, 1e-3)
        wt = np.ones(len(f)) if weight is None else (np.abs(v.reshape(-1, 3, len(f))[weight]) ** 2).sum(axis=0)
        tot += [(x * wt).sum() for x in per_mode(T, f)]
    ratio = c.n / float(c.types().max() + 1)
    return tot / len(qs) * NA * np.array([1e-3, 1, 1, 1e-3]) * ratio, low, fmax


def make(rng, names=True, low=1, atoms=40, cutoff=3.8):
    from lib import crystal as cr, qp
    while True:
        if names and rng.integers(2):
            c = cr.named_crystal(cr.NAMED[int(rng.integers(len(cr.NAMED)))])
        else:
            c = cr.random_crystal(rng, cellkind=str(rng.choice(['cubic', 'ortho', 'hex', 'mono', 'rot'])))
        sc = [int(v) for v in rng.integers(low, 4, 3)]
        if c.n * np.prod(sc) <= atoms and c.types().max() < 4:
            break
    fc = qp.springs(c, sc, rng, cutoff=cutoff)
    return c, sc, fc


def dos(case, mon, rng):
    from lib import crystal as cr, qp
    import dynaphopy.interface.phonopy_link as pl
    c, sc, fc = make(rng, low=2, atoms=64, cutoff=8.0)
    npr = c.types().max() + 1
    s = cr.to_structure(c, fc, sc)
    n = int(c.n * np.prod(sc))
    d = cr.to_dynamics(c, s, sc, velocity=rng.normal(size=(4, n, 3)), disp=rng.normal(size=(4, n, 3)) * .01)
    mesh = [10, 10, 10]
    q = qp.make(d, mesh_phonopy=mesh, use_NAC=False, spectrum_resolution=.02)
    probe, low, fmax = mode_sum(c, fc, sc, [6, 6, 6], 300.0)
    if low < .08 * fmax or fmax < .5:      # unstable or almost without restoring force
        return
    T = float(H * fmax / KB * 10 ** rng.uniform(-.9, 1))
    q.set_temperature(T)
    top = fmax * 1.1 + .3
    with cr.quiet():
        q.set_frequency_limits([0, top])
    own = mode_sum(c, fc, sc, [8, 8, 8], T)[0]
    kc = 3 * c.n * KB * NA
    info = '%s x %s, T %.4g, fmax %.4g THz, primitive %d of %d atoms' % (c.elements, sc, T, fmax, npr, c.n)
    scale = np.array([abs(own[3]) + T * kc / 1000, max(kc, own[1]), kc, abs(own[3])])
    with cr.quiet():
        got = q.get_thermal_properties()
        again = q.get_thermal_properties()
    mon.same('repeatable', np.array(got), np.array(again))
    mon.check('mode_sum', abs(got[4] - 1) < .02, 'integral of the density of states %g modes per degree of freedom %s' % (got[4], info))
    # how far sums over meshes of this size are converged
    coarse = mode_sum(c, fc, sc, [6, 6, 6], T)[0]
    tol = .03 + 3 * float(np.abs((own - coarse) / scale).max())
    if tol > .2:
        return
    for i in range(4):
        mon.close('mode_sum', got[i] / scale[i], own[i] / scale[i], rtol=0, atol=tol, info='%s (%s)' % ('FSCU'[i], info))
    with cr.quiet():
        nd = q.get_thermal_properties(normalize_dos=True)
    mon.close('normalised', nd[4], 1.0, rtol=1e-12)
    mon.close('normalised', np.array(nd[:4]), np.array(got[:4]) / got[4], rtol=1e-9, scale=1.0, atol=1e-9 * np.abs(got[:4]).max(), info=info)
    with cr.quiet():
        ph = pl.obtain_phonopy_thermal_properties(s, T, mesh=mesh)
    for i in range(3):
        mon.close('phonopy_mode_sum', ph[i] / scale[i], own[i] / scale[i], rtol=0, atol=tol, info='%s (%s)' % ('FSC'[i], info))
    # parts of atoms
    if rng.integers(2):
        parts = []
        for t in range(npr):
            q.set_projection_onto_atom_type(t)
            with cr.quiet():
                parts.append(q.get_thermal_properties())
            w = mode_sum(c, fc, sc, [8, 8, 8], T, weight=t)[0]
            for i in range(4):
                mon.close('projections_add_up', parts[-1][i] / scale[i], w[i] / scale[i], rtol=0, atol=tol * 1.5, info='atom %d %s (%s)' % (t, 'FSCU'[i], info))
        q.parameters.project_on_atom = -1
        mon.close('projections_add_up', np.sum(parts, axis=0)[:4] / scale, np.array(got[:4]) / scale, rtol=0, atol=tol * 1.5, info=info)
    # renormalised: F' = F_r - (U_r - U_h)/2, U' = (U_r + U_h)/2
    fac = float(rng.uniform(.8, 1.2))
    from dynaphopy.interface.phonopy_link import ForceConstants
    frc = ForceConstants(fc.copy() * fac, supercell=np.diag(sc))
    r = mode_sum(c, fc * fac, sc, [8, 8, 8], T)[0]
    with cr.quiet():
        q.set_frequency_limits([0, top * 1.2])
        gr = q.get_thermal_properties(force_constants=frc)
    want = [r[0] - (r[3] - own[3]) / 2, r[1], r[2], (r[3] + own[3]) / 2]
    for i in range(4):
        mon.close('renormalised', gr[i] / scale[i], want[i] / scale[i], rtol=0, atol=tol, info='%s factor %.3f (%s)' % ('FSCU'[i], fac, info))
    with cr.quiet():
        g1 = q.get_thermal_properties(force_constants=ForceConstants(fc.copy(), supercell=np.diag(sc)))
        g0 = q.get_thermal_properties()
    mon.close('renormalised', np.array(g1[:4]) / scale, np.array(g0[:4]) / scale, rtol=0, atol=1e-8, info='same force constants')
    mon.nontrivial('dos', case['seed'], T)
    mon.observe(T=T, own=[float(x) for x in own], got=[float(x) for x in got])


def md(case, mon, rng):
    from lib import crystal as cr, qp
    import dynaphopy.analysis.thermal_properties as thm
    while True:
        c, sc, fc = make(rng)
        if c.n * np.prod(sc) > 16:
            continue
        s, d, h, fc, x, v = qp.harmonic_case(rng, c, sc, int(rng.integers(200, 500)), .004, temperature=400.)
        if h.freq.min() > -1e-2 and mode_sum(c, fc, sc, [2, 2, 2], 300.)[2] > .5:
            break
    lo = 0.0 if rng.integers(4) == 0 else float(rng.uniform(.1, 1))
    res = float(rng.choice([.1, .2, .25]))
    q = qp.make(d, mesh_phonopy=[6, 6, 6], use_NAC=False, power_spectra_algorithm=int(rng.integers(4)))
    q.parameters.number_of_coefficients_mem = 40
    with cr.quiet():
        q.set_spectra_resolution(res)
        q.set_frequency_limits([lo, 35])
    T = float(rng.uniform(50, 1500))
    given = bool(rng.integers(2))
    if given:
        q.set_temperature(T)
    proj = -1
    if rng.integers(4) == 0:
        proj = int(rng.integers(c.types().max() + 1))
        q.set_projection_onto_atom_type(proj)
    norm = bool(rng.integers(3) == 0)
    with cr.quiet():
        ok = np.abs(q.get_renormalized_force_constants().get_array()).max() > 1e-3
    if not ok:
        return
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        q.display_thermal_properties(from_power_spectrum=True, normalize_dos=norm)
    text = out.getvalue()
    rows = {}
    for k in ('Free energy', 'Entropy', 'Cv', 'Total energy', 'Integration'):
        m = re.findall(r'^%s[^:]*:(.*)$' % k, text, re.M)
        rows[k] = [float(u) for u in m[-1].split()] if m else []
    if not mon.check('printed', all(len(v_) == 3 for v_ in rows.values()), text[-900:]):
        return
    table = np.array([rows[k] for k in ('Free energy', 'Entropy', 'Cv', 'Total energy', 'Integration')])
    f = np.array(q.get_frequency_range())
    with cr.quiet():
        T = q.get_temperature()
        p = np.array(q.get_power_spectrum_full()).real
        har = q.get_thermal_properties(normalize_dos=norm)
        ren = q.get_thermal_properties(force_constants=q.get_renormalized_force_constants(), normalize_dos=norm)
    mon.close('printed', table[:, 0], har, rtol=1e-9, scale=1, atol=1e-4, info='harmonic column')
    mon.close('printed', table[:, 1], ren, rtol=1e-9, scale=1, atol=1e-4, info='quasiparticle column')
    mon.check('printed', '(%.2f K)' % T in text, 'temperature in the heading')
    ncell = int(np.prod(sc))
    g = 2 * 1.602176634e-19 * p / (KB * T * ncell)
    integ = quadrature(g, f) / (3 * c.n)
    if norm:
        g = g / integ
        integ = 1.0
        if proj > -1:
            npr = c.types().max() + 1
            g = g / npr
            integ = 1.0 / npr
    want = reference(T, f, g) + [integ]
    mon.close('printed', table[:, 2] / (np.abs(want) + 1e-3), np.array(want) / (np.abs(want) + 1e-3), rtol=0, atol=2e-5 + 1e-4 / (np.abs(want).min() + 1e-3),
              info='power spectrum column; T %g lo %g res %g proj %d norm %s' % (T, lo, res, proj, norm))
    mon.nontrivial('md', case['seed'])
    mon.observe(table=table.tolist(), T=float(T))


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    {'functions': functions, 'dos': dos, 'md': md}[case['kind']](case, mon, rng)
