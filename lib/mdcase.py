"""Random MD runs written as files, with what a reader has to return for them."""
import numpy as np
from lib import crystal as cr, mdfiles

FORMATS = ('lammps_x', 'lammps_v', 'xdatcar', 'outcar')


def rounded(x, digits):
    return np.array([float('%.*f' % (digits, v)) for v in np.ravel(x)]).reshape(np.shape(x))


def grouped(crystal):
    """The crystal with equal elements next to each other (VASP files count atoms per species block)."""
    order = sorted(range(crystal.n), key=lambda i: (crystal.elements.index(crystal.elements[i]), i))
    return cr.Crystal(crystal.cell, crystal.scaled[order], [crystal.elements[i] for i in order], crystal.pm)


def blocks(elements):
    el, cnt = [], []
    for e in elements:
        if el and el[-1] == e:
            cnt[-1] += 1
        else:
            el.append(e)
            cnt.append(1)
    return el, cnt


def small_case(rng, max_atoms=24, minframes=3, maxframes=14, nprim=None):
    while True:
        c = grouped(cr.random_crystal(rng, nprim=nprim, outside=rng.integers(5) == 0))
        sc = [int(v) for v in rng.permutation([1, int(rng.integers(1, 4)), int(rng.integers(1, 3))])]
        nat = int(c.n * np.prod(sc))
        if nat <= max_atoms:
            break
    n = int(rng.integers(minframes, maxframes + 1))
    pos = c.super_positions(sc) + rng.normal(size=(n, nat, 3)) * .15
    mode = int(rng.integers(3))
    cell = c.super_cell(sc)
    if mode == 1:       # wrapped into the cell
        s = np.dot(pos, np.linalg.inv(cell))
        pos = np.dot(s - np.floor(s), cell)
    elif mode == 2:     # drifting over cell boundaries
        pos = pos + np.dot(np.cumsum(rng.normal(size=(n, nat, 3)) * .4, axis=0), np.eye(3))
    return c, sc, n, pos


class Case:
    pass


def write(rng, fmt, c, sc, pos, path, vel=None, digits=None, dt=None, regular=False):
    """Writes the frames as `fmt`; returns what has to be read."""
    k = Case()
    k.fmt, k.path, k.crystal, k.sc = fmt, path, c, sc
    n, nat = pos.shape[:2]
    cell = c.super_cell(sc)
    k.cell = cell
    digits = int(rng.integers(4, 11)) if digits is None else digits
    k.energy = None
    k.time_step = dt or float(rng.choice([.001, .002, .0005, .0025]))
    k.position_only_scaled = False
    if fmt.startswith('lammps'):
        stride = int(rng.choice([1, 1, 5, 10]))
        first = int(rng.choice([0, 0, 1, 100, 123456]))
        if regular:
            stride, first = 1, 0
        steps = first + stride * np.arange(n)
        data = vel if fmt == 'lammps_v' else pos
        R = mdfiles.lammps_cell(cell)[1]
        written = rounded(np.dot(data, R), digits)
        k.frames = np.dot(written, R.T)
        k.columns = str(rng.choice(['id type {} ', '{} ', 'element {} ', 'id element {} q fx ', 'id mol type mass {} ix iy iz ', 'type q {} ']))
        origin = rng.uniform(-20, 20, 3) if rng.integers(2) else np.zeros(3)
        k.text = mdfiles.lammps_dump(data, cell, steps, columns='v' if fmt == 'lammps_v' else 'x', origin=origin, extra=k.columns, digits=digits,
                                     types=np.repeat(c.types(), int(np.prod(sc))) + 1, elements=c.super_elements(sc),
                                     force_tilt=None, tail=str(rng.choice(['', ' '])))
        k.times = steps * k.time_step
        k.kind = 'v' if fmt == 'lammps_v' else 'x'
        k.cell_tol = 1e-8
    elif fmt == 'xdatcar':
        scale = float(rng.choice([1.0, 1.0, 1.0, 2.5, .529177]))
        s = np.dot(pos, np.linalg.inv(cell))
        if rng.integers(3) == 0:
            s = s - np.floor(s)
        digits = max(digits, 6)
        k.scaled = rounded(s, digits)
        k.frames = np.dot(k.scaled, cell)
        first = 1 if regular else int(rng.choice([1, 1, 1, 201]))
        el, cnt = blocks(c.super_elements(sc))
        k.text = mdfiles.xdatcar(s, cell, el, cnt, scale=scale, first=first, digits=digits, every_header=bool(rng.integers(2)),
                                 title=str(rng.choice(['unknown system', 'SiO2 = quartz 12', '   '])))
        k.times = (first + np.arange(n)) * k.time_step
        k.kind = 's'
        k.cell_tol = 1e-8
    else:
        digits = min(max(digits, 5), 8)
        k.frames = rounded(pos, digits)
        k.energy = np.round(rng.normal(size=n) * 30, 8)
        el, cnt = blocks(c.super_elements(sc))
        potim = rng.choice([1.0, .5, 2.0, 2.5]) if dt is None else dt * 1e3
        k.time_step = float('%.4f' % potim) * 1e-3
        k.cell = rounded(cell, 9)
        k.text = mdfiles.outcar(pos, k.energy, cell, cnt, [cr.MASS[e] for e in el], potim, digits=digits, filler=int(rng.integers(0, 40)))
        k.times = np.arange(n) * k.time_step
        k.kind = 'x'
        k.cell_tol = 1e-8
    with open(path, 'w') as f:
        f.write(k.text)
    return k


def reader(fmt):
    from dynaphopy.interface.iofile import trajectory_parsers as tp
    return {'lammps_x': tp.read_lammps_trajectory, 'lammps_v': tp.read_lammps_trajectory, 'xdatcar': tp.read_VASP_XDATCAR,
            'outcar': tp.read_vasp_trajectory}[fmt]


def content(k, d):
    """The array of the reader (real), from where it came in the file."""
    return d.velocity if k.kind == 'v' else d.trajectory
