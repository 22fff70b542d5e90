"""C19  Supercells and structure files describe the same crystal."""
import contextlib
import io

import numpy as np

RULE = ('random and named crystals (all cell shapes, atoms in any order, isotopes, charges) expanded into random supercells internally and '
        'written in VASP and LAMMPS form, parsed here by independent parsers and compared with the expansion built here; written files '
        'read back; POSCAR files in every layout (scale factors, volumes, Direct/Cartesian/k, selective dynamics, old style, repeated species, '
        'labels, velocities) and OUTCAR headers read. Non-trivial: a distinct crystal and supercell or layout')
ASSUMPTIONS = ['a left-handed cell becomes its mirror image in LAMMPS (which has only right-handed boxes)', 'one scale factor in a POSCAR', 'atoms of one element weigh the same']
MONITORS = ['expansion', 'vasp_file', 'lammps_file', 'lammps_rotation', 'read_back', 'poscar_rules', 'outcar_header', 'distances', 'order_is_fixed', 'structure_untouched', 'xsf']
MIN_NONTRIVIAL = 80
CPU_LIMIT = 200


def generate(tier, seed):
    k = 3 if tier == 'quick' else 22
    return ([{'kind': 'super', 'seed': seed * 211 + i} for i in range(160 * k)] +
            [{'kind': 'poscar', 'seed': seed * 223 + i} for i in range(200 * k)] +
            [{'kind': 'outcar', 'seed': seed * 227 + i} for i in range(60 * k)] +
            [{'kind': 'xsf', 'seed': seed * 229 + i} for i in range(50 * k)])


def pick(rng, cr, outside=True):
    while True:
        if rng.integers(3) == 0:
            c = cr.named_crystal(cr.NAMED[int(rng.integers(len(cr.NAMED)))])
        else:
            c = cr.random_crystal(rng, outside=outside and rng.integers(5) == 0)
        if c.n <= 16:
            return c


def run_case(case, mon):
    from lib import crystal as cr
    rng = np.random.default_rng(case['seed'])
    {'super': super_, 'poscar': poscar, 'outcar': outcar, 'xsf': xsf}[case['kind']](case, mon, rng, cr)


def xsf(case, mon, rng, cr):
    """the XCrySDen file: primitive and conventional vectors, one atom per site of the primitive cell"""
    from dynaphopy.interface import iofile
    from dynaphopy.atoms import Structure
    c = pick(rng, cr)
    s = cr.to_structure(c)
    with contextlib.redirect_stdout(io.StringIO()):
        if rng.integers(2):
            import dynaphopy
            from lib import qp
            d = cr.to_dynamics(c, s, [1, 1, 1], disp=np.zeros((4, c.n, 3)), dt=.01)
            qp.make(d).write_to_xfs_file('s.xsf')
        else:
            iofile.write_xsf_file('s.xsf', s)
    l = open('s.xsf').read().split('\n')
    info = '%s atoms %d' % (np.round(c.cell, 3).tolist(), c.n)
    num = lambda rows: np.array([[float(x) for x in r.split()] for r in rows])
    i, j, k = l.index('PRIMVEC'), l.index('CONVVEC'), l.index('PRIMCOORD')
    mon.check('xsf', l[0] == 'CRYSTAL', 'head ' + l[0])
    mon.close('xsf', num(l[j + 1:j + 4]), c.cell, rtol=0, atol=6e-5, info='conventional ' + info)
    prim = num(l[i + 1:i + 4])
    mon.close('xsf', prim, c.primitive, rtol=0, atol=6e-5, info='primitive ' + info)
    types = c.types()
    n = types.max() + 1
    rows = num(r for r in l[k + 2:] if r.strip())
    if not mon.check('xsf', [int(x) for x in l[k + 1].split()] == [n, 1] and rows.shape == (n, 4), 'atoms %s %s %s' % (l[k + 1], rows.shape, info)):
        return
    inv = np.linalg.inv(c.primitive)
    found = []
    from phonopy.structure.atoms import atom_data
    for z, x in zip(rows[:, 0], rows[:, 1:]):
        f = np.dot(c.positions - x, inv)
        hit = np.where(np.abs(np.dot(f - np.round(f), c.primitive)).max(axis=1) < 1e-3)[0]
        if mon.check('xsf', len(hit) > 0 and all(c.elements[h] == atom_data[int(z)][1] for h in hit), 'no %s atom at %s %s' % (z, x, info)):
            found.append(types[hit[0]])
    mon.check('xsf', len(set(found)) == n, 'sites found %s of %d %s' % (sorted(found), n, info))
    mon.nontrivial('xsf', c.cell.round(6).tolist())


# ------------------------------------------------------------ own parsers
def parse_poscar(text):
    l = text.split('\n')
    scale = float(l[1])
    cell = np.array([[float(x) for x in r.split()] for r in l[2:5]]) * scale
    el, cnt = l[5].split(), [int(x) for x in l[6].split()]
    assert len(el) == len(cnt)
    elements = [e for e, k in zip(el, cnt) for _ in range(k)]
    x = np.array([[float(v) for v in r.split()[:3]] for r in l[8:8 + len(elements)]])
    rest = [r for r in l[8 + len(elements):] if r.strip()]
    if l[7].strip()[0] in 'Dd':
        x = np.dot(x, cell)
    else:
        x = x * scale
    return cell, elements, x, rest


def parse_data(text):
    head, sections, name = [], {}, None
    for line in text.split('\n')[1:]:
        t = line.split('#')[0].strip()
        if not t:
            continue
        if t.split()[0] in ('Masses', 'Atoms'):
            name = t.split()[0]
            sections[name] = []
        elif name is None:
            head.append(t)
        else:
            sections[name].append(t.split())
    box = {}
    n = types = None
    tilt = [0, 0, 0]
    for t in head:
        w = t.split()
        if w[-1] == 'atoms':
            n = int(w[0])
        elif w[-2:] == ['atom', 'types']:
            types = int(w[0])
        elif w[-1] in ('xhi', 'yhi', 'zhi'):
            box[w[-1][0]] = (float(w[0]), float(w[1]))
        elif w[-3:] == ['xy', 'xz', 'yz']:
            tilt = [float(v) for v in w[:3]]
    L = [box[k][1] - box[k][0] for k in 'xyz']
    cell = np.array([[L[0], 0, 0], [tilt[0], L[1], 0], [tilt[1], tilt[2], L[2]]])
    lo = np.array([box[k][0] for k in 'xyz'])
    return n, types, cell, lo, sections


def super_(case, mon, rng, cr):
    from dynaphopy.atoms import Structure
    from dynaphopy import generate_cell as gen
    from dynaphopy.interface import iofile
    c = pick(rng, cr)
    if rng.integers(3) == 0:      # atoms outside the cell
        c = cr.Crystal(c.cell, c.scaled + rng.integers(-1, 2, size=c.scaled.shape), c.elements, c.pm)
    sc = [int(v) for v in rng.integers(1, 4, 3)]
    if rng.integers(6) == 0:
        sc = [1, 1, 1]
    charges = rng.normal(size=c.n).round(4) if rng.integers(2) else None
    masses = None
    if rng.integers(3) == 0:       # isotopes, one mass per element
        per = {e: float(rng.uniform(1, 60)) for e in c.elements}
        masses = np.array([per[e] for e in c.elements])
    kw = dict(cell=c.cell.copy(), atomic_elements=list(c.elements), primitive_matrix=c.pm.copy(), charges=charges, masses=masses)
    kw['scaled_positions' if rng.integers(2) else 'positions'] = None
    if 'positions' in kw:
        kw['positions'] = c.positions.copy()
    else:
        kw['scaled_positions'] = c.scaled.copy()
    info = '%s sc %s' % (np.round(c.cell, 3).tolist(), sc)
    with cr.quiet():
        s = Structure(**kw)
        scv = [sc, tuple(sc), np.array(sc)][int(rng.integers(3))]
        cell, pos = c.super_cell(sc), c.super_positions(sc)
        els = c.super_elements(sc)
        mass = np.repeat(c.masses if masses is None else masses, int(np.prod(sc)))
        mon.close('expansion', s.get_cell(supercell=scv), cell, rtol=1e-12, info=info)
        mon.close('expansion', s.get_positions(supercell=scv), pos, rtol=0, atol=1e-9, info=info, mech='expansion: positions')
        mon.close('expansion', s.get_scaled_positions(supercell=scv), np.dot(pos, np.linalg.inv(cell)), rtol=0, atol=1e-9, info=info)
        mon.check('expansion', list(s.get_atomic_elements(supercell=scv)) == els, 'elements ' + info)
        mon.close('expansion', s.get_masses(supercell=scv), mass, rtol=3e-3 if masses is None else 1e-12, info='masses ' + info)
        ch = s.get_charges(supercell=scv)
        mon.check('expansion', (ch is None) == (charges is None), 'charges ' + info)
        if charges is not None:
            mon.close('expansion', ch, np.repeat(charges, int(np.prod(sc))), rtol=1e-12, info='charges ' + info)
        mon.check('expansion', [int(x) for x in s.get_atom_type_index(supercell=scv)] == [int(x) for x in c.super_types(sc)], 'types ' + info)
        Z = {e: i for i, e in enumerate('X H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr'.split())}
        if all(e in Z for e in els):
            mon.check('expansion', [int(x) for x in s.get_atomic_numbers(supercell=scv)] == [Z[e] for e in els], 'numbers ' + info)
        par = s.get_cell_parameters(supercell=scv)
        ln = np.linalg.norm(cell, axis=1)
        an = [np.arccos(np.dot(cell[i], cell[j]) / ln[i] / ln[j]) for i, j in ((1, 2), (0, 2), (0, 1))]
        mon.close('expansion', par, np.append(ln, an), rtol=1e-10, info='cell parameters ' + info)
        # VASP
        for scaled in (True, False):
            text = gen.generate_VASP_structure(s, scaled=scaled, supercell=scv)
            vc, ve, vx, rest = parse_poscar(text)
            mon.close('vasp_file', vc, cell, rtol=0, atol=1e-8, info=info, mech='vasp_file: cell')
            mon.check('vasp_file', ve == els, 'elements %s instead of %s %s' % (ve, els, info), mech='vasp_file: elements')
            mon.close('vasp_file', vx, pos, rtol=0, atol=1e-7, info=info, mech='vasp_file: positions')
            mon.check('vasp_file', not rest, 'extra lines %s' % rest[:3])
            with open('POSCAR', 'w') as f:
                f.write(text)
            r = iofile.read_from_file_structure_poscar('POSCAR')
            mon.close('read_back', r.get_cell(), cell, rtol=0, atol=1e-8, info=info)
            mon.close('read_back', r.get_positions(), pos, rtol=0, atol=1e-7, info=info, mech='read_back: positions')
            mon.check('read_back', list(r.get_atomic_elements()) == els, 'elements ' + info)
        # LAMMPS
        n, nt, lc, lo, sec = parse_data(gen.generate_LAMMPS_structure(s, supercell=scv))
        mon.check('lammps_file', n == len(els) == len(sec['Atoms']), '%s atoms announced, %d written, %d expected' % (n, len(sec['Atoms']), len(els)))
        mon.check('lammps_file', nt == len(set(els)) == len(sec['Masses']), '%s types' % nt)
        R = np.dot(np.linalg.inv(cell), lc)
        big = np.abs(cell).max()
        mon.close('lammps_rotation', np.dot(R, R.T), np.eye(3), rtol=0, atol=1e-7, info='the cell is not an isometry of the crystal: ' + info)
        right = np.linalg.det(cell) > 0
        mon.check('lammps_rotation', np.linalg.det(R) * (1 if right else -1) > 0, 'mirror image ' + info)
        cols = 6 if charges is not None else 5
        rows = sec['Atoms']
        if mon.check('lammps_file', all(len(r) == cols for r in rows), 'columns %s' % rows[0]):
            x = np.array([[float(v) for v in r[-3:]] for r in rows])
            mon.close('lammps_rotation', x - lo, np.dot(pos, R), rtol=0, atol=3e-8 * big, info=info, mech='lammps positions')
            mon.check('lammps_file', [int(r[0]) for r in rows] == list(range(1, n + 1)), 'identifiers')
            m = {int(r[0]): float(r[1]) for r in sec['Masses']}
            ty = [int(r[1]) for r in rows]
            mon.check('lammps_file', len({(t, e) for t, e in zip(ty, els)}) == nt, 'types %s of %s' % (ty, els))
            if set(ty) <= set(m):
                mon.close('lammps_file', [m[t] for t in ty], mass, rtol=3e-3 if masses is None else 1e-8, info='masses ' + info, mech='lammps masses')
            else:
                mon.fail('lammps masses', 'no mass for a type')
            if charges is not None:
                mon.close('lammps_file', [float(r[2]) for r in rows], np.repeat(charges, int(np.prod(sc))), rtol=1e-9, info='charges')
        # same distances in both
        k = rng.integers(0, n, size=(10, 2))
        for i, j in k:
            mon.close('distances', np.linalg.norm(x[i] - x[j]), np.linalg.norm(pos[i] - pos[j]), rtol=0, atol=1e-7 * big, info=info)
        mon.check('order_is_fixed', np.abs(s.get_positions(supercell=scv) - pos).max() < 1e-9, 'a second expansion differs')
        mon.close('structure_untouched', s.get_positions(), c.positions, rtol=0, atol=1e-9)
    mon.nontrivial('super', info, charges is None, masses is None)
    mon.observe(info=info, atoms=len(els))


def poscar(case, mon, rng, cr):
    from dynaphopy.interface import iofile
    c = pick(rng, cr)
    # atoms of one species in consecutive lines, species blocks possibly repeated
    order = np.arange(c.n)
    if rng.integers(2):
        order = np.array(sorted(order, key=lambda i: c.elements[i]))
    scaled, elements = c.scaled[order], [c.elements[i] for i in order]
    el, cnt = [], []
    for e in elements:
        if el and el[-1] == e:
            cnt[-1] += 1
        else:
            el.append(e)
            cnt.append(1)
    style = int(rng.integers(4))          # scale 1, positive, volume, other
    vol = abs(np.linalg.det(c.cell))
    if style == 2:
        other = float(rng.uniform(.2, 3))
        shown = c.cell * other
        header, s = '-%.12f' % vol, 1 / other
    else:
        s = [1.0, float(rng.uniform(.3, 6)), 1.0, .529177][style]
        shown, header = c.cell / s, ('%.10f' % s if rng.integers(2) else ' %r ' % s)
    old = bool(rng.integers(3) == 0)
    ind = lambda t: ' ' * int(rng.integers(0, 4)) + t + ' ' * int(rng.integers(0, 3))
    l = [' '.join(el) if old else str(rng.choice(['comment', '', 'Direct', '1 2 3', ' '.join(el)])), ind(header)]
    l += [ind('  '.join('%.14f' % v for v in r)) for r in shown]
    if not old:
        l.append(ind('  '.join(el)))
    l.append(ind('  '.join(str(x) for x in cnt)))
    selective = bool(rng.integers(2))
    if selective:
        l.append(str(rng.choice(['Selective dynamics', 'selective', 'S', ' s'])))
    cart = bool(rng.integers(2))
    l.append(str(rng.choice(['Cartesian', 'cartesian', 'C', 'c', 'K', 'kartesisch', ' Cart'] if cart else ['Direct', 'direct', 'D', 'd', 'Fractional', ' direct'])))
    x = np.dot(scaled, shown) if cart else scaled
    for i, r in enumerate(x):
        t = '  '.join('%.14f' % v for v in r)
        if selective:
            t += '  ' + '  '.join(rng.choice(['T', 'F'], 3))
        elif rng.integers(3) == 0:
            t += '  ' + elements[i]
        l.append(ind(t))
    if rng.integers(3) == 0:
        l.append(' ')
        l += ['  0.01 0.02 0.03' for _ in elements]
    text = '\n'.join(l) + '\n' * int(rng.integers(0, 3))
    with open('POSCAR', 'w') as f:
        f.write(text)
    info = repr(text[:420])
    with cr.quiet():
        r = iofile.read_from_file_structure_poscar('POSCAR')
        big = np.abs(c.cell).max()
        mon.close('poscar_rules', r.get_cell(), c.cell, rtol=0, atol=1e-8 * big, info=info, mech='poscar: cell')
        mon.close('poscar_rules', r.get_positions(), np.dot(scaled, c.cell), rtol=0, atol=1e-7 * big, info=info, mech='poscar: positions')
        mon.close('poscar_rules', r.get_scaled_positions(), scaled, rtol=0, atol=1e-7, info=info, mech='poscar: positions')
        mon.check('poscar_rules', list(r.get_atomic_elements()) == elements, 'elements %s %s' % (r.get_atomic_elements(), info), mech='poscar: elements')
        mon.close('poscar_rules', r.get_masses(), [cr.MASS[e] for e in elements], rtol=3e-3, info=info, mech='poscar: masses')
        sc = [int(v) for v in rng.integers(1, 3, 3)]
        cc = cr.Crystal(c.cell, scaled, elements)
        mon.close('poscar_rules', r.get_positions(supercell=sc), cc.super_positions(sc), rtol=0, atol=1e-7 * big, info=info, mech='poscar: positions')
    mon.nontrivial('poscar', style, old, selective, cart, l[0], case['seed'])


def outcar(case, mon, rng, cr):
    from dynaphopy.interface import iofile
    from lib import mdcase, mdfiles
    c = mdcase.grouped(pick(rng, cr, outside=False))
    el, cnt = mdcase.blocks(c.elements)
    x = c.positions
    text = mdfiles.outcar([x], [0.], c.cell, cnt, [cr.MASS[e] for e in el], 1.0, filler=int(rng.integers(0, 30)))
    with open('OUTCAR', 'w') as f:
        f.write(text)
    with cr.quiet():
        r = iofile.read_from_file_structure_outcar('OUTCAR')
        mon.close('outcar_header', r.get_cell(), c.cell, rtol=0, atol=1e-8)
        mon.close('outcar_header', r.get_positions(), x, rtol=0, atol=1e-7)
        mon.close('outcar_header', r.get_masses(), c.masses, rtol=1e-3)
        mon.check('outcar_header', list(r.get_atomic_elements()) == list(c.elements), 'elements %s instead of %s' % (r.get_atomic_elements(), c.elements))
    mon.nontrivial('outcar', case['seed'])
