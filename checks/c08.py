"""C08  Projections onto wave vectors and phonon modes."""
import numpy as np

RULE = ('random crystals (any cell shape, centring, shuffled atoms, 1-3 primitive sites, supercells up to 3x2x2, force-constant '
        'supercell different from the MD supercell) with random velocities; vc, vq and eigenvectors observed through '
        'Quasiparticle at commensurate, arbitrary, negative and large wave vectors. Non-trivial: a distinct (cell kind, '
        'centring size, supercell, wave-vector class) combination')
ASSUMPTIONS = ['the harmonic reference uses pair springs short enough for every force-constant supercell used']
MONITORS = ['q_vector', 'vc', 'vq', 'orthonormal', 'diagonalises', 'mode_energy', 'crystal_energy', 'opposite', 'types_add_up']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 200


def generate(tier, seed):
    k = 3 if tier == 'quick' else 20
    return [{'kind': 'proj', 'seed': seed * 211 + i} for i in range(112 * k)]


def run_case(case, mon):
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    kinds = ['cubic', 'ortho', 'hex', 'hex60', 'mono', 'tri', 'rot', 'left', 'skew', 'long']
    kind = kinds[case['seed'] % len(kinds)]
    cents = ['P', 'F', 'I', 'C', 'D', 'T', 'A']
    cent = cents[(case['seed'] // 3) % len(cents)]
    c = cr.random_crystal(rng, kind, cent, shuffle=bool(rng.integers(4)), outside=rng.integers(4) == 0)
    choices = [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1], [1, 3, 1], [3, 1, 2], [2, 2, 2]]
    sc = choices[int(rng.integers(len(choices)))]
    while np.prod(sc) * c.n > 64:
        sc = choices[int(rng.integers(len(choices)))]
    fsc = [1, 1, 1] if rng.integers(2) else list(rng.permutation([1, 1, 2]))
    fsc = [int(x) for x in fsc]
    if np.prod(fsc) * c.n > 40:
        fsc = [1, 1, 1]
    fc = c.spring_fc(fsc, 4.2, rng)
    custom = None
    if rng.random() < .3:      # isotopes: other masses for the sites of one element
        custom = np.array([m * (1.9 if e == c.elements[0] else 1.0) for m, e in zip(c.masses, c.elements)])
        c.masses = custom
    s = cr.to_structure(c, fc, fsc, masses=custom)
    masses = c.super_masses(sc)
    nat = len(masses)
    n = 6
    v = rng.normal(size=(n, nat, 3)) * 7
    d = cr.to_dynamics(c, s, sc, velocity=v, disp=np.zeros_like(v))
    q = qp.make(d)
    types = c.super_types(sc)
    pos = c.super_positions(sc)
    npr = int(types.max()) + 1
    w = v * np.sqrt(masses)[None, :, None]
    E = (w ** 2).sum(axis=(1, 2))
    comm = cr.commensurate_q(c, sc)

    def reference(qr):
        ph = np.exp(-1j * np.dot(pos, cr.cart_q(c, qr)))
        out = np.zeros((n, npr, 3), complex)
        for i in range(nat):
            out[:, types[i]] += w[:, i] * ph[i]
        return out / np.sqrt(nat / float(npr))

    info = '%s %s sc %s' % (kind, cent, sc)
    total = 0
    qs = [(x, 'comm') for x in comm]
    with cr.quiet():
        for qr, _ in qs:
            q.set_reduced_q_vector(qr)
            got = np.array(q.get_vc())
            mon.close('vc', got, reference(qr), rtol=1e-7, info=info + ' q %s' % qr)
            total = total + (np.abs(got) ** 2).sum(axis=(1, 2))
        mon.close('crystal_energy', total, E, rtol=1e-7, info=info)
        tests = [(comm[rng.integers(len(comm))], 'comm'), (rng.uniform(-1, 1, 3), 'any'),
                 (comm[rng.integers(len(comm))] - rng.integers(0, 3, 3), 'shifted'), (np.zeros(3), 'gamma')]
        for qr, cls in tests:
            q.set_reduced_q_vector(qr)
            mon.close('q_vector', q.get_q_vector(), cr.cart_q(c, qr), rtol=1e-10, atol=1e-12)
            vc = np.array(q.get_vc())
            mon.close('vc', vc, reference(qr), rtol=1e-7, info=info + ' q %s' % qr)
            ev = np.array(q.get_eigenvectors())
            fr = np.array(q.get_frequencies())
            if not mon.check('vq', ev.shape == (3 * npr, npr, 3), 'eigenvector shape %s' % (ev.shape,)):
                continue
            e = ev.reshape(3 * npr, -1)
            mon.close('orthonormal', np.dot(e.conj(), e.T), np.eye(3 * npr), atol=1e-8, rtol=0, info=info)
            D = cr.dyn_matrix(c, fc, fsc, qr)
            lam = (fr / cr._v) ** 2 * np.sign(fr)
            mon.close('diagonalises', np.dot(D, e.T), e.T * lam[None, :], scale=max(np.abs(D).max(), 1e-4), rtol=2e-5,
                      info=info + ' fsc %s q %s' % (fsc, qr))
            vq = np.array(q.get_vq())
            mon.close('vq', vq, np.dot(reference(qr).reshape(n, -1), e.conj().T), rtol=1e-9, info=info)
            mon.close('mode_energy', (np.abs(vq) ** 2).sum(axis=1), (np.abs(vc) ** 2).sum(axis=(1, 2)), rtol=1e-9, info=info)
            q.set_reduced_q_vector(-np.array(qr))
            mon.close('opposite', np.array(q.get_vc()), vc.conj(), rtol=1e-9, info=info)
            acc, accq = 0, 0
            for t in range(npr):
                q2 = qp.make(d)
                q2.set_reduced_q_vector(np.array(qr))
                q2.set_projection_onto_atom_type(t)
                pv = np.array(q2.get_vc())
                only = np.zeros_like(vc)
                only[:, t] = vc[:, t]
                mon.close('types_add_up', pv, only, scale=np.abs(vc).max(), rtol=1e-9, info=info + ' type %d' % t)
                acc = acc + pv
                accq = accq + np.array(q2.get_vq())
            mon.close('types_add_up', acc, vc, rtol=1e-9, info=info)
            mon.close('types_add_up', accq, vq, scale=np.abs(vc).max(), rtol=1e-8, info=info)
            qp.reset_parameters()
            mon.nontrivial(kind, cent, tuple(sc), cls)
            q.parameters.project_on_atom = -1
            q.full_clear()
    mon.observe(crystal=info, energy=float(E[0]), total_over_q=float(total[0]))
