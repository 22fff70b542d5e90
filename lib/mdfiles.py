"""Writers of MD files the way VASP and LAMMPS lay them out (independent of the readers under test)."""
import numpy as np


def lammps_cell(cell):
    """Lower triangular form of the cell (rows) and the orthogonal matrix R with  x_lammps = x R."""
    a, b, c = np.asarray(cell, float)
    la = np.linalg.norm(a)
    ex = a / la
    bx = np.dot(b, ex)
    by = np.linalg.norm(b - bx * ex)
    ey = (b - bx * ex) / by
    cx, cy = np.dot(c, ex), np.dot(c, ey)
    ez = c - cx * ex - cy * ey
    cz = np.linalg.norm(ez)
    ez = ez / cz
    R = np.array([ex, ey, ez]).T
    return np.array([[la, 0, 0], [bx, by, 0], [cx, cy, cz]]), R


def num(x, digits):
    return '%.*f' % (digits, x)


def lammps_dump(frames, cell, steps, columns='x', origin=(0, 0, 0), extra=None, digits=8, ids=None, types=None, elements=None,
                force_tilt=None, tail=''):
    """frames in the frame of `cell`; returns the text.  columns 'x' positions, 'v' velocities."""
    lc, R = lammps_cell(cell)
    xy, xz, yz = lc[1, 0], lc[2, 0], lc[2, 1]
    tilt = (max(abs(xy), abs(xz), abs(yz)) > 1e-9) if force_tilt is None else force_tilt
    lo = np.array(origin, float)
    hi = lo + np.diag(lc)
    out = []
    n = len(frames[0])
    ids = np.arange(1, n + 1) if ids is None else ids
    types = np.ones(n, int) if types is None else types
    names = {'x': ['x', 'y', 'z'], 'v': ['vx', 'vy', 'vz']}[columns]
    layout = extra or 'id type {} '
    for k, (step, fr) in enumerate(zip(steps, frames)):
        out.append('ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\n' % (step, n))
        if tilt:
            out.append('ITEM: BOX BOUNDS xy xz yz pp pp pp\n')
            xlo = lo[0] + min(0.0, xy, xz, xy + xz)
            xhi = hi[0] + max(0.0, xy, xz, xy + xz)
            ylo = lo[1] + min(0.0, yz)
            yhi = hi[1] + max(0.0, yz)
            out.append('%.14e %.14e %.14e\n%.14e %.14e %.14e\n%.14e %.14e %.14e\n' %
                       (xlo, xhi, xy, ylo, yhi, xz, lo[2], hi[2], yz))
        else:
            out.append('ITEM: BOX BOUNDS pp pp pp\n')
            for j in range(3):
                out.append('%.14e %.14e\n' % (lo[j], hi[j]))
        cols = layout.split()
        labels = []
        for cname in cols:
            labels += names if cname == '{}' else [cname]
        out.append('ITEM: ATOMS ' + ' '.join(labels) + tail + '\n')
        x = np.dot(fr, R)
        for i in range(n):
            row = []
            for cname in cols:
                if cname == '{}':
                    row += [num(v, digits) for v in x[i]]
                elif cname == 'id':
                    row.append(str(ids[i]))
                elif cname == 'type':
                    row.append(str(types[i]))
                elif cname == 'element':
                    row.append(elements[i] if elements else 'X')
                else:
                    row.append(num(-77.7 + i, 4))
            out.append(' '.join(row) + tail + '\n')
    return ''.join(out)


def xdatcar(scaled_frames, cell, elements, counts, scale=1.0, first=1, digits=8, every_header=False, title='generated'):
    out = []

    def head():
        s = '%s\n %14.10f\n' % (title, scale)
        for r in np.asarray(cell, float) / scale:
            s += ' %22.16f%22.16f%22.16f\n' % tuple(r)
        return s + '   ' + '   '.join(elements) + '\n   ' + '   '.join(str(c) for c in counts) + '\n'
    out.append(head())
    for k, fr in enumerate(scaled_frames):
        if every_header and k:
            out.append(head())
        out.append('Direct configuration= %5d\n' % (first + k))
        for r in fr:
            out.append(''.join(' %*.*f' % (digits + 4, digits, v) for v in r) + '\n')
    return ''.join(out)


def outcar(frames, energies, cell, counts, masses, potim_fs, digits=5, filler=0, unit_positions=None):
    """A VASP OUTCAR with the blocks the readers look for, in VASP's order."""
    n = len(frames[0])
    cell = np.asarray(cell, float)
    rec = np.linalg.inv(cell).T
    out = [' vasp.5.3.5 31Mar14\n\n']
    for m in masses:
        out.append('   VRHFIN =X: s2p2\n   POMASS = %8.3f; ZVAL   =    4.000    mass and valenz\n' % m)
    out.append(' generic filler line without meaning %d\n' % 7 * filler)
    out.append('   number of dos      NEDOS =    301   number of ions     NIONS = %6d\n' % n)
    out.append('   ions per type =       ' + ''.join('%8d' % c for c in counts) + '\n')
    out.append('   NSW    = %6d    number of steps for IOM\n   POTIM  = %.4f    time-step for ionic-motion\n' % (len(frames), potim_fs))
    out.append('  Mass of Ions in am\n   POMASS = ' + ''.join('%6.2f' % m for m in masses) + '\n')
    out.append('  Ionic Valenz\n   ZVAL   = ' + ''.join('%6.2f' % 4.0 for _ in masses) + '\n')
    out.append('      direct lattice vectors                 reciprocal lattice vectors\n')
    for r, k in zip(cell, rec):
        out.append('   %13.9f%13.9f%13.9f   %13.9f%13.9f%13.9f\n' % (tuple(r) + tuple(k)))
    out.append('\n  length of vectors\n   1.0 1.0 1.0\n')
    p0 = frames[0] if unit_positions is None else unit_positions
    out.append(' position of ions in fractional coordinates (direct lattice) \n')
    for r in np.dot(p0, np.linalg.inv(cell)):
        out.append(' %12.8f%12.8f%12.8f\n' % tuple(r))
    out.append('\n position of ions in cartesian coordinates  (Angst):\n')
    for r in p0:
        out.append(' %12.8f%12.8f%12.8f\n' % tuple(r))
    for k, (fr, e) in enumerate(zip(frames, energies)):
        out.append('\n--------------------------------------- Ionic step %8d  ---\n' % (k + 1))
        out.append('  energy without entropy = %18.8f  energy(sigma->0) = %18.8f\n' % (e + 5, e + 7))
        out.append('      direct lattice vectors                 reciprocal lattice vectors\n')
        for r, kk in zip(cell, rec):
            out.append('   %13.9f%13.9f%13.9f   %13.9f%13.9f%13.9f\n' % (tuple(r) + tuple(kk)))
        out.append(' POSITION                                       TOTAL-FORCE (eV/Angst)\n')
        out.append(' ' + '-' * 83 + '\n')
        for i, r in enumerate(fr):
            out.append(' %*.*f %*.*f %*.*f    %13.6f %13.6f %13.6f\n' %
                       (digits + 7, digits, r[0], digits + 7, digits, r[1], digits + 7, digits, r[2], .1 * i, -.2, .3))
        out.append(' ' + '-' * 83 + '\n    total drift:                               -0.000001     -0.000002      0.000003\n\n')
        out.append('  FREE ENERGIE OF THE ION-ELECTRON SYSTEM (eV)\n  ---------------------------------------------------\n')
        out.append('  free  energy   TOTEN  = %18.8f eV\n\n' % (e - 1))
        out.append('  energy  without entropy= %18.8f  energy(sigma->0) = %18.8f\n' % (e - .5, e))
        out.append('  kinetic energy EKIN   = %12.6f\n' % .5)
    out.append('\n General timing and accounting informations for this job:\n')
    return ''.join(out)
