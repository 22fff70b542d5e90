"""C20  Displacement statistics match their definitions in every basis."""
import contextlib
import io

import numpy as np

RULE = ('trajectories of random crystals with known anisotropic displacement clouds (mean shifts, correlated components, wrapped and drifting '
        'over cell boundaries, given in Cartesian or scaled form, cropped, memory-mapped); every statistic, returned, printed or written, against its '
        'definition evaluated here from the displacements that were put in; equivalent atoms exchanged. Non-trivial: a distinct data set')
ASSUMPTIONS = ['displacements stay below half the MD cell', 'U(ij) normalised with the reciprocal axis lengths as in the IUCr definition']
MONITORS = ['mean_square', 'covariance', 'adp_cart', 'adp_crys', 'adp_uvrs', 'symmetric_psd', 'average_positions', 'average_folded', 'histogram',
            'histogram_file', 'relabelled', 'printed_adp', 'printed_average', 'projection']
MIN_NONTRIVIAL = 60
CPU_LIMIT = 200


def generate(tier, seed):
    k = 3 if tier == 'quick' else 22
    return [{'kind': ('crystal', 'named')[i % 2], 'seed': seed * 1201 + i} for i in range(200 * k)]


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, qp
    from dynaphopy.dynamics import Dynamics
    rng = np.random.default_rng(case['seed'])
    while True:
        c = cr.random_crystal(rng, outside=rng.integers(5) == 0) if case['kind'] == 'crystal' else cr.named_crystal(cr.NAMED[int(rng.integers(len(cr.NAMED)))])
        sc = [int(v) for v in rng.integers(1, 4, 3)]
        nat = int(c.n * np.prod(sc))
        if nat <= 40:
            break
    if case['kind'] == 'named' and rng.integers(2):
        c = cr.Crystal(c.cell, c.scaled + rng.uniform(-1, 1, 3), c.elements, c.pm)
    n = int(rng.integers(3, 80)) if rng.integers(8) or nat > 12 else int(10 ** rng.uniform(2.5, 3.8))
    cell = c.super_cell(sc)
    types = c.super_types(sc)
    nt = types.max() + 1
    width = np.abs(1 / np.linalg.norm(np.linalg.inv(cell), axis=0)).min()
    amp = min(.35, width * .09)
    disp = np.empty((n, nat, 3))
    for t in range(nt):
        m = rng.normal(size=(3, 3)) * amp / 2
        if rng.integers(4) == 0:
            m[:, 2] = m[:, 1]        # flat cloud
        k = types == t
        disp[:, k] = np.clip(np.dot(rng.normal(size=(n, k.sum(), 3)), m), -3 * amp / 1.2, 3 * amp / 1.2) + rng.normal(size=3) * amp * .3
    disp += rng.normal(size=(1, nat, 3)) * amp * .2
    sites = c.super_positions(sc)
    wrap = int(rng.integers(3))
    pos = sites + disp
    if wrap == 1:
        s = np.dot(pos, np.linalg.inv(cell))
        pos = np.dot(s - np.floor(s), cell)
    elif wrap == 2:
        pos = pos + np.dot(rng.integers(-2, 3, size=(n, nat, 3)), cell)
    s = cr.to_structure(c)
    mem = bool(rng.integers(4) == 0)
    kw = {'trajectory': pos.astype(complex)} if rng.integers(2) else {'scaled_trajectory': np.dot(pos, np.linalg.inv(cell)).astype(complex)}
    d = Dynamics(structure=s, time=np.arange(n) * .001, supercell=cell, memmap=mem, **kw)
    crop = int(rng.integers(2, n + 1)) if rng.integers(3) == 0 else None
    with cr.quiet():
        q = qp.make(d, last_steps=crop)
    x = disp if crop is None else disp[-crop:]
    n = len(x)
    info = '%d frames of %d atoms (%d types), sc %s, wrap %d crop %s' % (n, nat, nt, sc, wrap, crop)
    tol = 1e-9
    # ---- matrices
    ms = np.zeros((nt, 3, 3))
    cov = np.zeros((nt, 3, 3))
    for t in range(nt):
        y = x[:, types == t]
        ms[t] = np.einsum('tai,taj->ij', y, y) / y.shape[0] / y.shape[1]
        z = y - y.mean(axis=0)
        cov[t] = np.einsum('tai,taj->ij', z, z) / y.shape[0] / y.shape[1]
    with cr.quiet():
        first = bool(rng.integers(2))
        if first:
            got_c = np.array(d.get_mean_displacement_matrix(use_average_positions=True))
        got_m = np.array(d.get_mean_displacement_matrix())
        if not first:
            got_c = np.array(d.get_mean_displacement_matrix(use_average_positions=True))
    mon.close('mean_square', got_m, ms, rtol=tol, info=info)
    mon.close('covariance', got_c, cov, rtol=tol, scale=np.abs(ms).max(), info=info)
    F = np.linalg.inv(c.cell)
    rec = np.linalg.norm(F, axis=0)          # |a*|
    u = {'cart': cov, 'crys': np.array([np.dot(np.dot(F.T, m), F) for m in cov])}
    u['uvrs'] = u['crys'] / rec[:, None] / rec[None, :]
    elements = []
    tt = c.types()
    for t in range(nt):
        elements.append(c.elements[int(np.argmax(tt == t))])
    for kind in [str(v) for v in rng.permutation(['cart', 'crys', 'uvrs'])]:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            got = q.get_anisotropic_displacement_parameters(coordinate_type=kind)
        mon.close('adp_' + kind, np.array(got), u[kind], rtol=1e-8, scale=np.abs(u[kind]).max() + 1e-12, info=info)
        for g in got:
            g = np.array(g)
            mon.check('symmetric_psd', np.abs(g - g.T).max() <= 1e-10 * np.abs(g).max() + 1e-15 and
                      np.linalg.eigvalsh((g + g.T) / 2).min() >= -1e-9 * np.abs(g).max() - 1e-15, '%s %s' % (g.tolist(), info))
        rows = [l.split() for l in out.getvalue().split('\n') if l.split() and l.split()[0] in set(elements)]
        want = [(elements[t], u[kind][t]) for t in range(nt) for _ in range((tt == t).sum())]
        mon.check('printed_adp', len(rows) == len(want), '%d lines for %d atoms' % (len(rows), len(want)))
        for r, (e, m) in zip(rows, want):
            w = np.array([m[0, 0], m[1, 1], m[2, 2], m[1, 2], m[0, 2], m[0, 1]])
            mon.check('printed_adp', r[0] == e and np.abs(np.array(r[1:], float) - w).max() < 1.1e-8 + 1e-7 * np.abs(w).max(), '%s instead of %s %s' % (r, w, info))
    # ---- averages
    with cr.quiet():
        av = np.array(d.average_positions()).real
        fo = np.array(d.average_positions(to_unit_cell=True)).real
    ic, iu = np.linalg.inv(cell), np.linalg.inv(c.cell)
    want = sites + x.mean(axis=0)
    g = np.dot(av - want, ic)
    mon.close('average_positions', g - np.round(g), np.zeros_like(g), rtol=0, atol=1e-8, info=info)
    f = np.dot(av, ic)
    mon.check('average_positions', f.min() > -1e-9 and f.max() < 1 + 1e-9, 'outside the cell %s' % info)
    shift = np.array([x[:, types == t].mean(axis=(0, 1)) for t in range(nt)])
    want_u = c.positions + shift[tt]
    g = np.dot(fo - want_u, iu)
    mon.close('average_folded', g - np.round(g), np.zeros_like(g), rtol=0, atol=1e-8, info=info)
    f = np.dot(fo, iu)
    mon.check('average_folded', f.min() > -1e-9 and f.max() < 1 + 1e-9, 'outside the cell %s' % info)
    for unit, ref, els in ((True, fo, c.elements), (False, av, c.super_elements(sc))):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            q.get_average_atomic_positions(to_unit_cell=unit)
        rows = [l.split() for l in out.getvalue().split('\n') if len(l.split()) == 4 and l.split()[0] in set(els)]
        mon.check('printed_average', [r[0] for r in rows] == list(els), 'elements %s' % info)
        if len(rows) == len(ref):
            mon.close('printed_average', np.array([r[1:] for r in rows], float), ref, rtol=0, atol=1e-7)
    # ---- histograms
    for _ in range(2):
        direction = rng.integers(-2, 3, 3).astype(float) if rng.integers(2) else rng.normal(size=3)
        if not direction.any():
            direction[0] = 1
        bins = int(rng.integers(3, 60))
        q.parameters.number_of_bins_histogram = bins
        e = direction / np.linalg.norm(direction)
        proj = [np.dot(x[:, types == t], e).ravel() for t in range(nt)]
        if np.ptp(np.concatenate(proj)) < 1e-6:
            continue
        with cr.quiet():
            from dynaphopy.analysis.coordinates import trajectory_projection
            gp = trajectory_projection(d, direction if rng.integers(2) else direction.tolist())
            h, dist = q.get_atomic_displacements(direction.tolist())
            q.write_atomic_displacements(direction.tolist(), 'histogram')
        for t in range(nt):
            mon.close('projection', np.sort(np.asarray(gp[t]).real), np.sort(proj[t]), rtol=0, atol=1e-9, info=info)
        lo, hi = min(p.min() for p in proj), max(p.max() for p in proj)
        edges = np.linspace(lo, hi, bins + 1)
        w = edges[1] - edges[0]
        mon.check('histogram', np.shape(h) == (nt, bins), 'shape %s' % (np.shape(h),))
        for t in range(nt):
            cum = np.searchsorted(np.sort(proj[t]), edges[1:-1])
            gc = np.cumsum(np.asarray(h[t]) * w * len(proj[t]))[:-1]
            # a value on an edge may fall on either side
            eps = 1e-7 * max(hi - lo, 1e-3)
            a = np.searchsorted(np.sort(proj[t]), edges[1:-1] - eps)
            b = np.searchsorted(np.sort(proj[t]), edges[1:-1] + eps)
            mon.check('histogram', ((gc > a - 1e-3) & (gc < b + 1e-3)).all(), 'counts %s instead of %s type %d direction %s %s' % (gc[:6], cum[:6], t, direction, info))
            mon.check('histogram', abs(np.sum(h[t]) * w - 1) < 1e-6, 'area %.6g' % (np.sum(h[t]) * w))
        table = np.loadtxt('histogram')
        mon.check('histogram_file', table.shape == (bins, nt + 1), 'shape %s' % (table.shape,))
        if table.shape == (bins, nt + 1):
            centre = (edges[1:] + edges[:-1]) / 2
            low = np.abs(table[:, 0] - (centre - w)).max() < 6e-5
            mon.close('histogram_file', table[:, 0], centre, rtol=0, atol=6e-5, info='abscissa ' + info,
                      mech='histogram abscissa one bin below the centre' if low else 'histogram abscissa')
            mon.close('histogram_file', table[:, 1:], np.array(h).T, rtol=1e-9, info='values ' + info)
    # ---- equivalent atoms exchanged: only the statistics per type are compared
    order = np.arange(nat)
    for t in range(nt):
        k = np.where(types == t)[0]
        order[k] = rng.permutation(k)
    d2 = Dynamics(structure=cr.to_structure(c), time=np.arange(n) * .001, supercell=cell, trajectory=(sites + x[:, order]).astype(complex))
    with cr.quiet():
        mon.close('relabelled', d2.get_mean_displacement_matrix(), got_m, rtol=1e-9, info=info)
        mon.close('relabelled', d2.get_mean_displacement_matrix(use_average_positions=True), got_c, rtol=1e-8, scale=np.abs(got_m).max(), info=info)
        g = np.dot(np.array(d2.average_positions(to_unit_cell=True)).real - fo, iu)
        mon.close('relabelled', g - np.round(g), np.zeros_like(g), rtol=0, atol=1e-8, info=info)
    mon.nontrivial(info, case['seed'])
    mon.observe(info=info)
