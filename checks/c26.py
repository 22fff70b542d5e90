"""C26  Input files mean the same however they are laid out; sites and masses derived from them describe the crystal."""
import os

import numpy as np

RULE = ('input files with random subsets of the sections in random order, with comments, blank lines, tabs, indentation and number formats '
        'of any kind, read back and compared with the settings written; the same settings in two lay-outs; crystals read from POSCAR files '
        'with every centring (sites displaced by lattice vectors and by noise, shuffled atoms, several elements on one sublattice), their '
        'sites, types, elements, primitive cell and masses against the construction. Non-trivial: a distinct file lay-out or crystal')
ASSUMPTIONS = ['comments are lines starting with #', 'atoms within 0.01 A of a lattice translation of each other are equivalent']
MONITORS = ['settings', 'other_layout', 'absent_section', 'band_labels', 'sites', 'elements_of_types', 'primitive_cell', 'masses',
            'settings_applied', 'elements']
MIN_NONTRIVIAL = 100
CPU_LIMIT = 200
KINDS = ['cubic', 'ortho', 'hex', 'mono', 'tri', 'rot', 'left', 'skew']
# standard atomic weights
WEIGHTS = {'H': 1.008, 'Li': 6.94, 'Be': 9.0122, 'B': 10.81, 'C': 12.011, 'N': 14.007, 'O': 15.999, 'F': 18.998, 'Na': 22.990,
           'Mg': 24.305, 'Al': 26.982, 'Si': 28.085, 'P': 30.974, 'S': 32.06, 'Cl': 35.45, 'K': 39.098, 'Ca': 40.078, 'Ti': 47.867,
           'Cr': 51.996, 'Mn': 54.938, 'Fe': 55.845, 'Ni': 58.693, 'Co': 58.933, 'Cu': 63.546, 'Zn': 65.38, 'Ga': 69.723, 'Ge': 72.630,
           'As': 74.922, 'Se': 78.971, 'Br': 79.904, 'Sr': 87.62, 'Y': 88.906, 'Zr': 91.224, 'Nb': 92.906, 'Mo': 95.95, 'Ag': 107.87,
           'In': 114.82, 'Sn': 118.71, 'Te': 127.60, 'I': 126.90, 'Cs': 132.91, 'Ba': 137.33, 'W': 183.84, 'Pt': 195.08, 'Au': 196.97,
           'Pb': 207.2, 'Bi': 208.98}


def generate(tier, seed):
    k = 3 if tier == 'quick' else 40
    return ([{'kind': 'input', 'seed': seed * 2503 + i} for i in range(400 * k)] +
            [{'kind': 'crystal', 'seed': seed * 2521 + i} for i in range(240 * k)])


def number(rng, x):
    f = int(rng.integers(4))
    if f == 0 and x == int(x):
        return '%d' % x
    return ['%r', '%.12f', '%.12e', '%+.14f'][f] % float(x)


def noise(rng):
    """lines which mean nothing"""
    out = []
    for _ in range(int(rng.choice([0, 0, 1, 2]))):
        out.append(str(rng.choice(['', '   ', '\t', '# comment', '   # another comment', '#FORCE SETS', '# BANDS', ' # SUPERCELL MATRIX',
                                   '#0.0 0.0 0.0  0.5 0.5 0.5', '# 2 0 0', '#: A, B', '##'])))
    return out


def lay_out(rng, st):
    """text of one input file with these settings"""
    sections = []
    for name, v in st.items():
        loose = rng.integers(2)
        gap = (lambda: noise(rng)) if loose else (lambda: [])
        head = {'outcar': 'STRUCTURE FILE OUTCAR', 'poscar': 'STRUCTURE FILE POSCAR', 'sets': 'FORCE SETS', 'constants': 'FORCE CONSTANTS',
                'primitive': 'PRIMITIVE MATRIX', 'supercell': 'SUPERCELL MATRIX', 'bands': 'BANDS', 'mesh': 'MESH PHONOPY'}[name]
        ind = str(rng.choice(['', '', ' ', '\t'])) if loose else ''
        end = str(rng.choice(['', ' ', '\t'])) if loose else ''
        sep = lambda: str(rng.choice([' ', '  ', '\t', '    '])) if loose else ' '
        L = [ind + head + end]
        if name in ('outcar', 'poscar', 'sets', 'constants'):
            L += gap() + [ind + v + end]
        elif name == 'primitive':
            for r in v:
                L += gap() + [ind + sep().join(number(rng, x) for x in r) + end]
        elif name == 'supercell':
            for r in v:
                L += gap() + [ind + sep().join('%d' % x for x in r) + end]
        elif name == 'mesh':
            L += gap() + [ind + sep().join('%d' % x for x in v) + end]
        else:
            for a, b, lab in v:
                comma = rng.integers(3)
                f = lambda q: (str(rng.choice([',', ', ', ' ,', ' , '])) if comma else sep()).join(number(rng, x) for x in q)
                s = ind + f(a) + sep() + sep() + f(b)
                if lab is not None:
                    s += str(rng.choice([' : ', ':', ' :'])) + str(rng.choice([',', ', ', ' , '])).join(lab)
                L += gap() + [s + end]
        sections.append(L)
    rng.shuffle(sections)
    out = noise(rng)
    for L in sections:
        out += L + (noise(rng) if rng.integers(2) else [''])
    text = '\n'.join(out)
    return text + ('\n' if rng.integers(3) else '')


def compare(mon, got, st, name, info):
    keys = {'outcar': 'structure_file_name_outcar', 'poscar': 'structure_file_name_poscar', 'sets': 'force_sets_file_name',
            'constants': 'force_constants_file_name'}
    for k, g in keys.items():
        if k in st:
            mon.check(name, got.get(g) == st[k], '%s: %r instead of %r\n%s' % (k, got.get(g), st[k], info))
        elif k == 'poscar':
            mon.check('absent_section', got.get(g) == 'POSCAR', '%s: %r\n%s' % (k, got.get(g), info))
        else:
            mon.check('absent_section', g not in got, '%s: %r\n%s' % (k, got.get(g), info))
    for k, g in (('primitive', '_primitive_matrix'), ('supercell', 'supercell_phonon'), ('mesh', '_mesh_phonopy')):
        if k in st:
            mon.close(name, got.get(g), np.array(st[k]), rtol=1e-11, info='%s\n%s' % (k, info))
        else:
            mon.check('absent_section', g not in got, '%s: %r\n%s' % (k, got.get(g), info))
    if 'bands' in st:
        b = got.get('_band_ranges') or {}
        r = b.get('ranges', [])
        if mon.check(name, len(r) == len(st['bands']), '%d bands instead of %d\n%s' % (len(r), len(st['bands']), info)):
            for x, (p, q, lab) in zip(r, st['bands']):
                mon.close(name, np.array(x), np.array([p, q]), rtol=1e-11, atol=1e-14, info=info)
        labs = b.get('labels')
        if all(lab is None for _, _, lab in st['bands']):
            mon.check('band_labels', labs is None, '%s\n%s' % (labs, info))
        elif mon.check('band_labels', labs is not None and len(labs) == len(st['bands']), '%s\n%s' % (labs, info)):
            for x, (p, q, lab) in zip(labs, st['bands']):
                if lab is not None:
                    mon.check('band_labels', tuple(x) == tuple(lab), '%s instead of %s\n%s' % (x, lab, info))
                else:
                    mon.check('band_labels', not any(y for y in x), '%s for a band without labels\n%s' % (x, info))
    else:
        mon.check('absent_section', '_band_ranges' not in got, info)


def run_case(case, mon):
    from lib import crystal as cr, qp
    rng = np.random.default_rng(case['seed'])
    qp.reset_parameters()
    (inputs if case['kind'] == 'input' else crystals)(case, mon, rng, cr, qp)


def path(rng):
    return str(rng.choice(['POSCAR', './POSCAR_2', '/data/Si/FORCE_SETS', '../x/FORCE_CONSTANTS', 'my file.dat', 'a.b/c-d_e',
                           '/home/me/4x4x4 GGA/OUT', 'C:name', '1', '0.5', 'x#1', 'FORCE_CONSTANTS']))


def inputs(case, mon, rng, cr, qp):
    import dynaphopy
    from dynaphopy.interface import iofile
    from dynaphopy.atoms import Structure
    full = {'outcar': path(rng), 'poscar': path(rng), 'sets': path(rng), 'constants': path(rng),
            'primitive': [[float(x) for x in r] for r in rng.choice([0, .5, 1, -.5, 1 / 3., 2 / 3., .123456789], (3, 3))],
            'supercell': [[int(x) for x in r] for r in rng.integers(-1, 5, (3, 3))] if rng.integers(3) == 0 else
            np.diag(rng.integers(1, 9, 3)).tolist(),
            'mesh': [int(x) for x in rng.integers(1, 60, 3)]}
    bands = []
    style = int(rng.integers(4))
    for i in range(int(rng.integers(1, 6))):
        p, q = [[float(x) for x in rng.choice([0, .5, .25, 1 / 3., -.5, .625, 1.], 3)] for _ in range(2)]
        lab = None
        if style == 1 or (style == 2 and rng.integers(2)):
            lab = [str(x) for x in rng.choice(['GAMMA', 'X', 'L', 'K1', 'U_2', "W'", '1/2', 'M'], 2)]
        bands.append((p, q, lab))
    full['bands'] = bands
    names = [n for n in full if rng.integers(3)]
    st = {n: full[n] for n in names}
    results = []
    for i in range(2):
        text = lay_out(rng, st)
        with open('input', 'w') as h:
            h.write(text)
        with cr.quiet():
            got = iofile.read_parameters_from_input_file('input')
        compare(mon, got, st, 'settings' if i == 0 else 'other_layout', text)
        results.append(got)
        mon.nontrivial(text)
    # what the analysis and the structure take from it
    p = qp.reset_parameters()
    p.get_data_from_dict(got)
    if 'mesh' in st:
        mon.same('settings_applied', np.array(p.mesh_phonopy, float), np.array(st['mesh'], float))
    else:
        mon.check('settings_applied', list(p.mesh_phonopy) == [40, 40, 40], str(p.mesh_phonopy))
    if 'bands' in st:
        mon.close('settings_applied', np.array(p.band_ranges['ranges'], float), np.array([(a, b) for a, b, _ in st['bands']]), atol=1e-12)
    else:
        mon.check('settings_applied', p.band_ranges is None, str(p.band_ranges))
    s = Structure(cell=np.eye(3) * 4, scaled_positions=np.zeros((1, 3)), atomic_elements=['Si'])
    s.get_data_from_dict(got)
    with cr.quiet():
        mon.close('settings_applied', s.get_primitive_matrix(), np.array(st.get('primitive', np.eye(3))), rtol=1e-11, atol=1e-12)
    qp.reset_parameters()
    mon.observe(sections=str(names), text=text[:150])


def crystals(case, mon, rng, cr, qp):
    from dynaphopy.interface import iofile
    c = cr.random_crystal(rng, KINDS[case['seed'] % 8], outside=rng.integers(5) == 0)
    # elements with weights of our own
    names = sorted(set(c.elements), key=list(c.elements).index)
    rename = dict(zip(names, [str(x) for x in rng.permutation(sorted(WEIGHTS))[:len(names)]]))
    el = [rename[e] for e in c.elements]
    types = np.array(c.types())
    # several elements on what was one sublattice: the sites of one atom type split up in a unit cell as primitive
    order = rng.permutation(c.n)
    if rng.integers(2):                     # grouped by element, as VASP wants
        order = np.array(sorted(order, key=lambda i: sorted(set(el)).index(el[i])))
    sc = np.array(c.scaled)[order]
    el = [el[i] for i in order]
    types = types[order]
    shift = rng.integers(-1, 2, sc.shape) * rng.integers(2)
    nz = np.dot(rng.uniform(-1, 1, sc.shape) * .002 * rng.integers(2), np.linalg.inv(c.cell))
    pm = np.array(c.pm)
    split = False
    if rng.integers(4) == 0 and pm.shape == (3, 3) and len(set(types)) < c.n:
        # one atom replaced by another element: the same translations connect different elements
        cand = [i for i in range(c.n) if (types == types[i]).sum() > 1]
        i = cand[int(rng.integers(len(cand)))]
        other = [e for e in sorted(WEIGHTS) if e not in el]
        el[i] = str(other[int(rng.integers(len(other)))])
        if rng.integers(2) and not {'Ni', 'Co'} & set(el):         # elements of nearly the same mass
            pair = [str(x) for x in rng.permutation(['Ni', 'Co'])]
            for j in np.where(types == types[i])[0]:
                el[j] = pair[0]
            el[i] = pair[1]
        types = types.copy()
        types[i] = types.max() + 1
        split = True
    pos = sc + shift + nz
    a = float(rng.choice([1., 1., .5, 3.7]))
    groups = []
    for e in el:
        if not groups or groups[-1][0] != e:
            groups.append([e, 0])
        groups[-1][1] += 1
    cart = rng.integers(2)
    with open('POSCAR', 'w') as h:
        h.write('check\n%.12f\n' % a)
        for r in c.cell / a:
            h.write(' %.14f %.14f %.14f\n' % tuple(r))
        h.write(' '.join(g[0] for g in groups) + '\n' + ' '.join(str(g[1]) for g in groups) + '\n')
        h.write('Cartesian\n' if cart else 'Direct\n')
        for x in pos:
            h.write(' %.14f %.14f %.14f\n' % tuple(np.dot(x, c.cell / a) if cart else x))
    with open('input', 'w') as h:
        h.write(lay_out(rng, {'poscar': 'POSCAR', 'primitive': pm.tolist()} if not np.allclose(pm, np.eye(3)) or rng.integers(2)
                        else {'poscar': 'POSCAR'}))
    info = '%s, %d atoms %s, primitive %s%s' % (KINDS[case['seed'] % 8], c.n, el, pm.tolist(), ', split' if split else '')
    with cr.quiet():
        p = iofile.read_parameters_from_input_file('input')
        s = iofile.read_from_file_structure_poscar(p['structure_file_name_poscar'])
        s.get_data_from_dict(p)
        queries = ['types', 'cell', 'masses', 'nprim', 'elements']
        rng.shuffle(queries)
        for what in queries:
            if what == 'types':
                t = np.array(s.get_atom_type_index())
                mon.check('sites', t.shape == types.shape and ((t[:, None] == t[None]) == (types[:, None] == types[None])).all(),
                          '%s instead of %s; %s' % (t, types, info))
                mon.check('sites', sorted(set(t)) == list(range(len(set(t)))), '%s; %s' % (t, info))
            elif what == 'cell':
                mon.close('primitive_cell', s.get_primitive_cell(), np.dot(pm.T, c.cell), rtol=1e-9, info=info)
            elif what == 'masses':
                mon.close('masses', np.array(s.get_masses(), float), np.array([WEIGHTS[e] for e in el]), rtol=0, atol=.06, info=info)
            elif what == 'nprim':
                mon.check('sites', s.get_number_of_primitive_atoms() == len(set(types)) == s.get_number_of_atom_types(), info)
            else:
                mon.check('elements', list(s.get_atomic_elements()) == el, '%s; %s' % (s.get_atomic_elements(), info))
                u = list(s.get_atomic_elements(unique=True))
                t = np.array(s.get_atom_type_index())
                want = [el[list(t).index(k)] for k in sorted(set(t))]
                mon.check('elements_of_types', u == want and all(len(set(np.array(el)[t == k])) == 1 for k in set(t)), '%s; %s' % (u, info))
    mon.nontrivial(info, case['seed'])
    mon.observe(case=info)
