"""Random crystals, pair-spring lattice dynamics and trajectories: the oracle side, independent
of dynaphopy and phonopy.  dynaphopy objects are only made by to_structure()/to_dynamics()."""
import itertools
import numpy as np

VASP_TO_THZ = 15.633302          # sqrt(eV/A^2/u) -> THz (ordinary frequency); checked below
EV = 1.602176634e-19
AMU = 1.66053906660e-27
KB_EV = 8.617333262e-5
KIN_EV = AMU * (1e-10 / 1e-12) ** 2 / EV       # u (A/ps)^2 -> eV  = 1.0364269e-4
_v = np.sqrt(EV / AMU) * 1e10 / (2 * np.pi) * 1e-12
assert abs(_v - VASP_TO_THZ) < 1e-3, _v
FREQ_TOL = 2e-5   # relative freedom for constants of different CODATA vintages

MASS = {'C': 12.0107, 'N': 14.0067, 'O': 15.9994, 'Mg': 24.3050, 'Al': 26.9815386, 'Si': 28.0855, 'Cl': 35.453,
        'Na': 22.98976928, 'Cu': 63.546, 'Zn': 65.38, 'Ga': 69.723, 'Ge': 72.64, 'Ag': 107.8682, 'Ti': 47.867,
        'S': 32.065, 'K': 39.0983, 'Cs': 132.9054519, 'Pb': 207.2, 'Au': 196.966569}

CENTRING = {
    'P': ([[0, 0, 0]], np.eye(3)),
    'F': ([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]], np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])),
    'I': ([[0, 0, 0], [.5, .5, .5]], np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])),
    'C': ([[0, 0, 0], [.5, .5, 0]], np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1.]])),
    'A': ([[0, 0, 0], [0, .5, .5]], np.array([[1., 0, 0], [0, .5, .5], [0, -.5, .5]])),
    # a doubled primitive cell along a (simple translation, no symmetry needed)
    'D': ([[0, 0, 0], [.5, 0, 0]], np.diag([.5, 1., 1.])),
    # three-fold along c
    'T': ([[0, 0, 0], [0, 0, 1 / 3.], [0, 0, 2 / 3.]], np.diag([1., 1., 1 / 3.])),
}


def rand_rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def rand_cell(rng, kind, scale=None):
    a = scale if scale is not None else rng.uniform(3.5, 6.0)
    if kind == 'cubic':
        c = np.eye(3) * a
    elif kind == 'ortho':
        c = np.diag(a * rng.uniform(0.8, 1.4, 3))
    elif kind == 'tetra':
        c = np.diag([a, a, a * rng.uniform(1.1, 1.5)])
    elif kind == 'hex':
        c = a * np.array([[1, 0, 0], [-.5, np.sqrt(3) / 2, 0], [0, 0, rng.uniform(1.2, 1.7)]])
    elif kind == 'hex60':
        c = a * np.array([[1, 0, 0], [.5, np.sqrt(3) / 2, 0], [0, 0, rng.uniform(1.2, 1.7)]])
    elif kind == 'mono':
        b = np.radians(rng.uniform(100, 125))
        c = np.array([[a, 0, 0], [0, a * 1.1, 0], [a * 1.3 * np.cos(b), 0, a * 1.3 * np.sin(b)]])
    elif kind == 'tri':
        while True:
            c = np.eye(3) * a * rng.uniform(.85, 1.3, 3)[:, None] + a * rng.uniform(-.35, .35, (3, 3))
            if abs(np.linalg.det(c)) > .4 * a ** 3:
                break
    elif kind == 'skew':          # strongly skewed
        c = np.array([[a, 0, 0], [a * rng.uniform(.6, 1.2), a, 0], [a * rng.uniform(-1, 1), a * rng.uniform(.4, 1.1), a]])
    elif kind == 'left':          # left-handed, arbitrary orientation
        c = rand_cell(rng, 'tri', a)
        if np.linalg.det(c) > 0:
            c = c[[1, 0, 2]]
    elif kind == 'rot':           # arbitrary orientation
        c = np.dot(rand_cell(rng, 'tri', a), rand_rotation(rng))
    elif kind == 'long':
        c = np.diag([a, a * 1.1, a * rng.uniform(4, 9)])
        c[2, 0] = a * .3
    else:
        raise ValueError(kind)
    return np.array(c, dtype=float)


class Crystal:
    """unit cell (rows), scaled positions, elements, primitive matrix (columns convention of phonopy)."""

    def __init__(self, cell, scaled, elements, primitive_matrix=None, masses=None):
        self.cell = np.array(cell, float)
        self.scaled = np.array(scaled, float)
        self.elements = list(elements)
        self.masses = np.array([MASS[e] for e in elements] if masses is None else masses, float)
        self.pm = np.eye(3) if primitive_matrix is None else np.array(primitive_matrix, float)

    @property
    def n(self):
        return len(self.elements)

    @property
    def positions(self):
        return np.dot(self.scaled, self.cell)

    @property
    def primitive(self):
        return np.dot(self.cell.T, self.pm).T

    def types(self):
        """index of the primitive site of each unit-cell atom, numbered by first appearance."""
        inv = np.linalg.inv(self.primitive)
        t = -np.ones(self.n, int)
        c = 0
        pos = self.positions
        for i in range(self.n):
            if t[i] >= 0:
                continue
            t[i] = c
            for j in range(i + 1, self.n):
                d = np.dot(pos[j] - pos[i], inv)
                if t[j] < 0 and np.abs(d - np.round(d)).max() < 1e-4 and self.elements[i] == self.elements[j]:
                    t[j] = c
            c += 1
        return t

    def super_index(self, sc):
        """(unit atom, translation) of each supercell atom: atom slowest, first axis fastest."""
        out = []
        for k in range(self.n):
            for c in range(sc[2]):
                for b in range(sc[1]):
                    for a in range(sc[0]):
                        out.append((k, a, b, c))
        return np.array(out)

    def super_positions(self, sc):
        ix = self.super_index(sc)
        return np.dot(self.scaled[ix[:, 0]] + ix[:, 1:], self.cell)

    def super_cell(self, sc):
        return self.cell * np.array(sc, float)[:, None]

    def super_masses(self, sc):
        return np.repeat(self.masses, int(np.prod(sc)))

    def super_types(self, sc):
        return np.repeat(self.types(), int(np.prod(sc)))

    def super_elements(self, sc):
        return [e for e in self.elements for _ in range(int(np.prod(sc)))]

    # ---- pair springs
    def spring_fc(self, sc, cutoff, rng, kl=(4., 9.), kt=(.3, 1.2)):
        """Force constants (N,N,3,3) of the periodic supercell, eV/A^2; springs depend on species and
        distance only, so they have the symmetry of the crystal."""
        pos = self.super_positions(sc)
        cell = self.super_cell(sc)
        el = self.super_elements(sc)
        n = len(pos)
        fc = np.zeros((n, n, 3, 3))
        kk = {}
        hmin = 1.0 / np.linalg.norm(np.linalg.inv(cell), axis=0)
        m = [int(np.ceil(cutoff / h)) + 1 for h in hmin]
        shifts = np.array(list(itertools.product(*[range(-x, x + 1) for x in m])))
        sv = np.dot(shifts, cell)
        inv = np.linalg.inv(cell)
        for i in range(n):
            d = pos - pos[i]
            f = np.dot(d, inv)
            d = np.dot(f - np.round(f), cell)
            all_d = d[:, None, :] + sv[None, :, :]
            r = np.linalg.norm(all_d, axis=2)
            js, ss = np.where((r < cutoff + 1e-5) & (r > 1e-6))         # a shell at the cut-off is in or out as a whole
            for j, s in zip(js, ss):
                rr = r[j, s]
                pair = tuple(sorted((el[i], el[j])))
                key = next((k for k in kk if k[:2] == pair and abs(k[3] - rr) < 1e-4), pair + (round(rr, 3), rr))
                if key not in kk:
                    h = np.random.default_rng(abs(hash_key(key[:3])) % (2 ** 32) ^ self._springseed(rng))
                    dec = np.exp(-(round(rr, 3) / (0.55 * cutoff)) ** 2)
                    kk[key] = (h.uniform(*kl) * dec, h.uniform(*kt) * dec)
                a, b = kk[key]
                u = all_d[j, s] / rr
                k = a * np.outer(u, u) + b * (np.eye(3) - np.outer(u, u))
                fc[i, j] -= k
                fc[i, i] += k
        return fc

    def _springseed(self, rng):
        if not hasattr(self, '_ss'):
            self._ss = int(rng.integers(0, 2 ** 31))
        return self._ss


def hash_key(key):
    import zlib
    return zlib.crc32(repr(key).encode())


def dyn_matrix(crystal, fc, sc, q_prim):
    """Dynamical matrix at a reduced (primitive-basis) wave vector from supercell force constants,
    minimum-image vectors with equal shares.  3*nprim, ordering by first appearance."""
    ix = crystal.super_index(sc)
    pos = crystal.super_positions(sc)
    cell = crystal.super_cell(sc)
    types = crystal.super_types(sc)
    masses = crystal.super_masses(sc)
    npr = types.max() + 1
    first = [int(np.where(types == t)[0][0]) for t in range(npr)]
    qc = cart_q(crystal, q_prim)
    sv = np.dot(np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3))), cell)
    inv = np.linalg.inv(cell)
    D = np.zeros((npr, 3, npr, 3), complex)
    for t, i in enumerate(first):
        d = pos - pos[i]
        f = np.dot(d, inv)
        d = np.dot(f - np.round(f), cell)
        alld = d[:, None, :] + sv[None]
        r = np.linalg.norm(alld, axis=2)
        near = r < r.min(axis=1)[:, None] + 1e-5
        ph = np.where(near, np.exp(1j * np.dot(alld, qc)), 0).sum(axis=1) / near.sum(axis=1)
        for j in range(len(pos)):
            D[t, :, types[j], :] += fc[i, j] * ph[j] / np.sqrt(masses[i] * masses[j])
    D = D.reshape(3 * npr, 3 * npr)
    return (D + D.conj().T) / 2


def cart_q(crystal, q_prim):
    """Cartesian wave vector (1/A, with 2 pi)."""
    return 2 * np.pi * np.dot(np.linalg.inv(crystal.primitive), np.asarray(q_prim, float))


def frequencies(D):
    w = np.linalg.eigvalsh(D)
    return np.sign(w) * np.sqrt(np.abs(w)) * _v


def commensurate_q(crystal, sc):
    """All commensurate wave vectors of the supercell in primitive reciprocal coordinates, in [0,1)."""
    inv = np.linalg.inv(crystal.super_cell(sc))       # columns: reciprocal vectors of the MD cell
    prim = crystal.primitive
    n = int(round(abs(np.linalg.det(crystal.super_cell(sc)) / np.linalg.det(prim))))
    out = []
    seen = set()
    # G = inv @ m for integer m; in primitive coordinates: prim @ G
    M = np.dot(prim, inv)
    lim = max(sc) * 4
    for m in itertools.chain(itertools.product(range(lim), repeat=3), itertools.product(range(2 * n + 1), repeat=3)):
        q = np.dot(M, m)
        q = np.mod(np.round(q, 9), 1.0)
        q[np.abs(q - 1) < 1e-7] = 0
        key = tuple(np.round(q, 6) % 1)
        if key not in seen:
            seen.add(key)
            out.append(q)
            if len(out) == n:
                break
    assert len(out) == n, (len(out), n)
    return np.array(out)


def is_commensurate(crystal, sc, q_prim, tol=1e-4):
    q = cart_q(crystal, q_prim) / (2 * np.pi)
    x = np.dot(crystal.super_cell(sc), q)
    return np.abs(x - np.round(x)).max() < tol


def skew_supercell(c, S):
    """the supercell of the unit cell with matrix S (columns, phonopy's convention) as a crystal of its own, in phonopy's atom order"""
    from phonopy.structure.atoms import PhonopyAtoms
    from phonopy.structure.cells import get_supercell
    S = np.array(S)
    sup = get_supercell(PhonopyAtoms(symbols=c.elements, scaled_positions=c.scaled, cell=c.cell), S)
    cell = np.dot(S.T, c.cell)
    pos = np.array(sup.positions)
    inv = np.linalg.inv(c.cell)
    masses = []
    for p, e in zip(pos, sup.symbols):         # every atom is a translation of an atom of the unit cell
        f = np.dot(p, inv) - c.scaled
        k = np.abs(f - np.round(f)).max(axis=1)
        assert k.min() < 1e-6 and c.elements[int(np.argmin(k))] == e
        masses.append(c.masses[int(np.argmin(k))])
    assert len(pos) == c.n * round(abs(np.linalg.det(S)))
    return Crystal(cell, np.dot(pos, np.linalg.inv(cell)), list(sup.symbols), np.dot(np.linalg.inv(S), c.pm), masses)


class Harmonic:
    """Exact normal-mode dynamics of the periodic supercell."""

    def __init__(self, crystal, fc, sc):
        self.crystal, self.sc = crystal, tuple(int(x) for x in sc)
        m = crystal.super_masses(sc)
        n = len(m)
        self.m = m
        H = fc.transpose(0, 2, 1, 3).reshape(3 * n, 3 * n)
        s = np.repeat(1 / np.sqrt(m), 3)
        D = H * s[:, None] * s[None, :]
        D = (D + D.T) / 2
        self.D = D
        w, e = np.linalg.eigh(D)
        self.freq = np.sign(w) * np.sqrt(np.abs(w)) * _v       # THz
        self.modes = e

    def trajectory(self, rng, nsteps, dt, temperature=300., zero_translation=True):
        n = len(self.m)
        f = np.where(np.abs(self.freq) > 1e-2, self.freq, 0.0)
        w = 2 * np.pi * f
        t = np.arange(nsteps) * dt
        act = w > 0
        amp = np.zeros(3 * n)
        amp[act] = np.sqrt(2 * KB_EV * temperature / KIN_EV) / w[act] * rng.rayleigh(size=act.sum()) / np.sqrt(2)
        ph = rng.uniform(0, 2 * np.pi, 3 * n)
        s = np.repeat(1 / np.sqrt(self.m), 3)
        c = np.cos(np.outer(t, w) + ph) * amp
        x = np.dot(c, self.modes.T) * s
        v = np.dot(-np.sin(np.outer(t, w) + ph) * amp * w, self.modes.T) * s
        self.amp, self.w, self.phase = amp, w, ph
        return t, x.reshape(nsteps, n, 3), v.reshape(nsteps, n, 3)


# ---------------------------------------------------------------- dynaphopy objects
def to_structure(crystal, fc=None, fc_sc=None, primitive=True, masses=None):
    from dynaphopy.atoms import Structure
    from dynaphopy.interface.phonopy_link import ForceConstants
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        s = Structure(cell=crystal.cell.copy(), scaled_positions=crystal.scaled.copy(),
                      atomic_elements=list(crystal.elements),
                      masses=masses,
                      primitive_matrix=crystal.pm.copy() if primitive else None)
    if fc is not None:
        s.set_force_constants(ForceConstants(fc.copy(), supercell=np.diag(fc_sc)))
    return s


def to_dynamics(crystal, structure, sc, disp=None, velocity=None, dt=0.001, wrap=None, positions=None,
                memmap=False, time0=0.0, energy=None):
    from dynaphopy.dynamics import Dynamics
    if positions is None and disp is not None:
        positions = crystal.super_positions(sc) + disp
        if wrap is not None:
            positions = positions + np.dot(wrap, crystal.super_cell(sc))
    n = len(positions) if positions is not None else len(velocity)
    return Dynamics(structure=structure,
                    trajectory=None if positions is None else np.array(positions, dtype=complex),
                    velocity=None if velocity is None else np.array(velocity, dtype=complex),
                    energy=energy,
                    time=time0 + np.arange(n) * dt,
                    supercell=crystal.super_cell(sc), memmap=memmap)


# ---------------------------------------------------------------- crystal catalogue
def rand_sites(rng, cell, prim, n, dmin=1.9):
    """n scaled positions (unit cell) of primitive sites kept apart."""
    out = []
    inv = np.linalg.inv(prim)
    sh = np.dot(np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3))), prim)
    tries = 0
    while len(out) < n:
        tries += 1
        if tries > 400:
            dmin *= .85
            tries = 0
        p = np.dot(rng.uniform(0, 1, 3), prim)
        ok = True
        for o in out:
            d = np.linalg.norm(p - o + sh, axis=1).min()
            if d < dmin:
                ok = False
                break
        if ok:
            out.append(p)
    return np.array(out)


def random_crystal(rng, cellkind=None, centring=None, nprim=None, elements=None, shuffle=True, outside=False):
    """A crystal without special symmetry (except centring translations)."""
    cellkind = cellkind or rng.choice(['cubic', 'ortho', 'hex', 'mono', 'tri', 'rot', 'left', 'skew'])
    centring = centring or rng.choice(['P', 'P', 'F', 'I', 'C', 'D', 'T'])
    nprim = nprim or int(rng.integers(1, 4))
    trans, pm = CENTRING[str(centring)]
    scale = {'P': 4.2, 'F': 6.2, 'I': 5.2, 'C': 5.4, 'A': 5.4, 'D': 5.4, 'T': 6.0}[str(centring)] * (nprim / 1.5) ** (1 / 3.)
    cell = rand_cell(rng, str(cellkind), scale)
    prim = np.dot(cell.T, pm).T
    sites = rand_sites(rng, cell, prim, nprim)
    inv = np.linalg.inv(cell)
    pool = list(MASS)
    if elements is None:
        elements = [str(rng.choice(pool)) for _ in range(nprim)]
    sc, el = [], []
    for s, e in zip(sites, elements):
        f = np.dot(s, inv)
        for t in trans:
            sc.append(f + np.array(t))
            el.append(e)
    sc = np.array(sc)
    order = np.arange(len(el))
    if shuffle:
        order = rng.permutation(len(el))
    sc = sc[order] % 1.0
    if outside:       # sites given outside the unit cell
        sc = sc + rng.integers(-2, 3, size=sc.shape)
    el = [el[i] for i in order]
    return Crystal(cell, sc, el, pm)


def named_crystal(name, rng=None):
    if name == 'nacl':
        t, pm = CENTRING['F']
        sc = [np.array(x) for x in t] + [np.array(x) + [.5, .5, .5] for x in t]
        return Crystal(np.eye(3) * 5.6, np.array(sc) % 1, ['Na'] * 4 + ['Cl'] * 4, pm)
    if name == 'diamond':
        t, pm = CENTRING['F']
        sc = [np.array(x) for x in t] + [np.array(x) + [.25, .25, .25] for x in t]
        return Crystal(np.eye(3) * 5.43, np.array(sc) % 1, ['Si'] * 8, pm)
    if name == 'zb':
        t, pm = CENTRING['F']
        sc = [np.array(x) for x in t] + [np.array(x) + [.25, .25, .25] for x in t]
        return Crystal(np.eye(3) * 5.4, np.array(sc) % 1, ['Zn'] * 4 + ['S'] * 4, pm)
    if name == 'cscl':
        return Crystal(np.eye(3) * 4.1, [[0, 0, 0], [.5, .5, .5]], ['Cs', 'Cl'])
    if name == 'fcc':
        t, pm = CENTRING['F']
        return Crystal(np.eye(3) * 4.05, t, ['Al'] * 4, pm)
    if name == 'bcc':
        t, pm = CENTRING['I']
        return Crystal(np.eye(3) * 4.2, t, ['K'] * 2, pm)
    if name == 'sc':
        return Crystal(np.eye(3) * 3.3, [[0, 0, 0]], ['Cu'])
    if name == 'tetra':
        return Crystal(np.diag([3.8, 3.8, 5.1]), [[0, 0, 0], [.5, .5, .5]], ['Ti', 'O'])
    if name == 'ortho':
        return Crystal(np.diag([3.6, 4.3, 5.2]), [[0, 0, 0], [.5, .5, .5]], ['Mg', 'O'])
    if name == 'hex':
        a = 3.2
        return Crystal(a * np.array([[1, 0, 0], [-.5, np.sqrt(3) / 2, 0], [0, 0, 1.62]]),
                       [[1 / 3., 2 / 3., 0.], [2 / 3., 1 / 3., .5], [1 / 3., 2 / 3., .38], [2 / 3., 1 / 3., .88]],
                       ['Ga', 'Ga', 'N', 'N'])
    if name == 'hcp':
        a = 3.2
        return Crystal(a * np.array([[1, 0, 0], [-.5, np.sqrt(3) / 2, 0], [0, 0, 1.62]]),
                       [[1 / 3., 2 / 3., .25], [2 / 3., 1 / 3., .75]], ['Mg', 'Mg'])
    if name == 'perov':
        return Crystal(np.eye(3) * 4.0, [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]],
                       ['K', 'Ti', 'O', 'O', 'O'])
    raise ValueError(name)


NAMED = ['nacl', 'diamond', 'zb', 'cscl', 'fcc', 'bcc', 'sc', 'tetra', 'ortho', 'hex', 'hcp', 'perov']


def quiet():
    import contextlib
    import io
    return contextlib.redirect_stdout(io.StringIO())
