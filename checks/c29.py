"""C29  Every entry of the interactive menu does what it says."""
import contextlib
import io
import json
import os
import subprocess
import sys

import numpy as np

RULE = ('interactive sessions of the command-line program (random sequences of menu entries, values typed in several notations, wrong keys, '
        'with and without BORN file, trajectories from files and stores) on a stand-in terminal which records every screen: figures, printed '
        'text and displayed values of every step against the same steps through the Python interface; complete sessions in a real terminal '
        '(pty, ncurses) against the state the same steps leave. Non-trivial: a distinct sequence of entries and values')
ASSUMPTIONS = ['figures are inspected when they are shown; layout of the screens is not judged beyond fitting 24 x 80 characters',
               'the Python interface itself is judged by the other properties']
MONITORS = ['figures', 'printed', 'displayed', 'preferences', 'frequencies', 'screens', 'state', 'real_terminal']
MIN_NONTRIVIAL = 30
CPU_LIMIT = 500


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    return [{'kind': 'session', 'seed': seed * 2903 + i} for i in range(64 * k)] + \
        [{'kind': 'terminal', 'seed': seed * 2909 + i} for i in range(8 * k)]


MAIN, SHOW, PLOT, PREF, ALGO, FITS, NAC = ('Please enter option number', 'Display...', 'Plotting...', 'Preferences...', 'Algorithms...',
                                           'Fitting functions...', 'Non analytical corrections...')


def notation(rng, x):
    from checks.c24 import fraction
    t = fraction(rng, float(x))
    return str(rng.choice(['', ' '])) + t + str(rng.choice(['', ' ']))


def born_file(c, s):
    """charges and dielectric tensor of the crystal's independent atoms"""
    from dynaphopy.interface import phonopy_link as pl
    ph = pl.get_phonon(s)
    sym = ph.primitive_symmetry if hasattr(ph, 'primitive_symmetry') else ph.get_primitive_symmetry()
    ind = list(sym.get_independent_atoms())
    el = list(ph.primitive.symbols)
    z = {e: 1. if i % 2 == 0 else -1. for i, e in enumerate(sorted(set(el)))}
    with open('BORN', 'w') as f:
        f.write('14.400\n5 0 0 0 5 0 0 0 5\n')
        for i in ind:
            f.write('%f 0 0 0 %f 0 0 0 %f\n' % ((z[el[i]],) * 3))


def actions(rng, comm, born, types, n):
    """[(name, [(token, words on the screen asked from)], f(q))]"""
    def key(k, words):
        return (k, words)

    def make(name):
        if name in ('freq', 'eig', 'bands', 'dos'):
            i = 'freq eig bands dos'.split().index(name)
            f = [lambda q: q.get_frequencies(), lambda q: q.plot_eigenvectors(), lambda q: q.plot_phonon_dispersion_bands(),
                 lambda q: q.plot_dos_phonopy()][i]
            return [key('1', MAIN), key(str(i + 1), SHOW)] + ([key('x', 'Frequencies (THz)')] if i == 0 else []) + [key('0', SHOW)], f
        if name == 'q':
            if rng.integers(3):
                v = np.array(comm[int(rng.integers(len(comm)))], float)
                t = ','.join(notation(rng, x) for x in v)
            else:
                v = np.round(rng.uniform(-1, 1, 3), int(rng.integers(2, 7)))
                t = ','.join('%.6f' % x for x in v)
            return [key('2', MAIN), key(('text', t), 'Insert reduced wave vector')], lambda q: q.set_reduced_q_vector(v)
        if name == 'thermal':
            return [key('3', MAIN)], lambda q: q.display_thermal_properties()
        if name == 'boltzmann':
            return [key('4', MAIN)], lambda q: q.show_boltzmann_distribution()
        if name.startswith('ps'):
            i = int(name[2])
            f = [lambda q: q.plot_power_spectrum_full(), lambda q: q.plot_power_spectrum_wave_vector(),
                 lambda q: q.plot_power_spectrum_phonon()][i - 1]
            return [key('5', MAIN), key(str(i), PLOT), key('0', PLOT)], f
        if name.startswith('rn'):
            i = int(name[2])
            f = [lambda q: q.plot_renormalized_phonon_dispersion_bands(),
                 lambda q: q.plot_renormalized_phonon_dispersion_bands(plot_linewidths=True, plot_harmonic=False),
                 lambda q: q.plot_linewidths_and_shifts_bands(), lambda q: q.plot_frequencies_vs_linewidths()][i - 1]
            return [key('6', MAIN), key(str(i), PLOT), key('0', PLOT)], f
        if name == 'peaks':
            return [key('7', MAIN), key('x', None)], lambda q: q.phonon_individual_analysis()
        if name == 'distribution':
            v = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 2], [.5, .25, 0]][int(rng.integers(6))], float)
            t = ','.join(notation(rng, x) for x in v)
            return [key('8', MAIN), key(('text', t), 'direction in real space')], lambda q: q.plot_trajectory_distribution(v)
        if name == 'wrong':
            k = str(rng.choice(list('abz-?\n')))
            return [key(k, MAIN)], lambda q: None
        if name == 'wrong sub':
            m, w = [('1', SHOW), ('5', PLOT), ('6', PLOT), ('9', PREF)][int(rng.integers(4))]
            return [key(m, MAIN), key('z', w), key('0', w)], lambda q: None
        if name == 'algorithm':
            a = int(rng.choice([0, 1, 2, 3]))
            bad = [key(str(rng.choice(['x', '9'])), ALGO)] if rng.integers(3) == 0 else []
            return [key('9', MAIN), key('1', PREF)] + bad + [key(str(a), ALGO), key('0', PREF)], \
                lambda q: q.select_power_spectra_algorithm(a)
        if name == 'nac':
            v = str(rng.choice(['1', '2']))
            bad = [key(str(rng.choice(list('70xn'))), NAC)] if rng.integers(2) == 0 else []
            return [key('9', MAIN), key('2', PREF)] + bad + [key(v, NAC), key('0', PREF)], \
                (lambda q: q.set_NAC(v == '1')) if born else (lambda q: None)
        if name == 'fit':
            a = int(rng.integers(3))
            bad = [key(str(rng.choice(['x', '9'])), FITS)] if rng.integers(3) == 0 else []
            return [key('9', MAIN), key('6', PREF)] + bad + [key(str(a), FITS), key('0', PREF)], lambda q: q.select_fitting_function(a)
        if name == 'mem':
            v = int(rng.integers(10, 60))
            return [key('9', MAIN), key('3', PREF), key(('text', str(v)), 'number of coefficients'), key('0', PREF)], \
                lambda q: q.set_number_of_mem_coefficients(v)
        if name == 'bins':
            v = int(rng.integers(5, 50))
            return [key('9', MAIN), key('4', PREF), key(('text', str(v)), 'number of bins'), key('0', PREF)], \
                lambda q: setattr(q.parameters, 'number_of_bins_histogram', v)
        if name == 'scale':
            v = int(rng.integers(1, 20))
            return [key('9', MAIN), key('5', PREF), key(('text', str(v)), 'vector scale'), key('0', PREF)], \
                lambda q: setattr(q.parameters, 'modes_vectors_scale', v)
        if name == 'resolution':
            v = float(rng.choice([.1, .15, .2, .25]))
            return [key('9', MAIN), key('7', PREF), key(('text', repr(v)), 'resolution'), key('0', PREF)], \
                lambda q: (q.set_spectra_resolution(v), q.full_clear())
        if name == 'range':
            lo, hi = float(rng.choice([0, .5, 1])), float(n + rng.choice([1., 2.5, 4]))
            return [key('9', MAIN), key('8', PREF), key(('text', '%s,%s' % (notation(rng, lo), notation(rng, hi))), 'frequency range'),
                                                        key('0', PREF)], lambda q: q.set_frequency_limits([lo, hi])
        raise KeyError(name)
    look = ['freq', 'eig', 'bands', 'dos', 'thermal', 'boltzmann', 'ps1', 'ps2', 'ps3', 'rn1', 'rn2', 'rn3', 'rn4', 'peaks', 'distribution']
    change = ['q', 'algorithm', 'nac', 'fit', 'mem', 'bins', 'scale', 'resolution', 'range', 'wrong', 'wrong sub']
    out = []
    for i in range(int(rng.integers(7, 13))):
        name = str(rng.choice(look if rng.integers(2) else change))
        out.append((name,) + make(name))
    return out


def display(q, d):
    """what the menus have to show"""
    p = q.parameters
    return {'q': np.array(q.get_reduced_q_vector(), float), 'range': (q.get_frequency_range()[0], q.get_frequency_range()[-1]),
            'resolution': p.spectrum_resolution, 'nac': bool(p.use_NAC), 'mem': p.number_of_coefficients_mem, 'bins': p.number_of_bins_histogram,
            'scale': p.modes_vectors_scale, 'algorithm': p.power_spectra_algorithm, 'fit': p.fitting_function,
            'atoms': (q.dynamic.structure.get_number_of_primitive_atoms(), q.dynamic.structure.get_number_of_atoms(),
                      q.dynamic.get_number_of_atoms()), 'steps': len(q.dynamic.velocity), 'dt': q.dynamic.get_time_step_average()}


def prepare(rng, cr, qp, mdcase):
    from checks import c24
    B = c24.build(rng, cr, qp, mdcase, symmetric=bool(rng.integers(2)), fmts=('lammps_x', 'xdatcar', 'hdf5'))
    types = B.c.types().max() + 1
    comm = cr.commensurate_q(B.c, B.sc)
    o = {'ts': B.dt, 'range': [0., float(np.round(B.fmax * 1.4, 1))], 'resolution': float(rng.choice([.15, .2])),
         'algorithm': int(rng.choice([0, 1, 2, 3])), 'cf': int(rng.integers(10, 50))}
    if rng.integers(3):
        o['q'] = [float(y) for y in np.array(comm[int(rng.integers(len(comm)))])]
    if rng.integers(3) == 0:
        o['n'] = int(rng.integers(100, 200))
    if rng.integers(3) == 0:
        o['read_from'] = int(rng.integers(1, 30))
    if rng.integers(3) == 0:
        o['no_symmetry'] = True
    if rng.integers(3) == 0:
        o['MD_commensurate'] = True
    if rng.integers(3) == 0:
        o['temperature'] = 250.
    if rng.integers(4) == 0:
        o['silent'] = True
    born = bool(rng.integers(3)) and types > 1
    if born:
        with cr.quiet():
            born_file(B.c, c24.structure(B))
    args = c24.arguments(B, o, rng)
    i = args.index('input') if 'input' in args else 0
    args = args[:2 + int(B.load)] + ['-i'] + args[2 + int(B.load):]
    return B, o, args, comm, born, types


def numbers(text):
    from checks.c24 import number_tokens
    return number_tokens(text.replace('[', ' [ ').replace(']', ' ] ').replace('%', ' ').replace('(', ' ( ').replace(')', ' ) '))


def same_text(a, b):
    x, y = numbers(a), numbers(b)
    if len(x) != len(y):
        return 'texts of %d and %d words: %r instead of %r' % (len(x), len(y), a[:200], b[:200])
    for s, t in zip(x, y):
        if isinstance(s, str) or isinstance(t, str):
            if s != t:
                return '%r instead of %r' % (s, t)
        elif abs(s - t) > 1e-5 * max(abs(t), 1e-6) + 2e-6:
            return '%r instead of %r' % (s, t)
    return None


def same_figures(a, b):
    """None, or the difference between two lists of shown figures"""
    if [len(s) for s in a] != [len(s) for s in b]:
        return 'figures per show %s instead of %s' % ([len(s) for s in a], [len(s) for s in b])
    for s, t in zip(a, b):
        for f, g in zip(s, t):
            if len(f) != len(g):
                return 'axes'
            for x, y in zip(f, g):
                for name in ('lines', 'areas', 'points', 'arrows'):
                    u, v = getattr(x, name), getattr(y, name)
                    if len(u) != len(v):
                        return '%d %s instead of %d' % (len(u), name, len(v))
                    for i, (p, r) in enumerate(zip(u, v)):
                        p, r = np.asarray(p, float), np.asarray(r, float)
                        if p.shape != r.shape:
                            return '%s %d of shape %s instead of %s' % (name, i, p.shape, r.shape)
                        ok = np.isfinite(r)
                        if (np.isfinite(p) != ok).any() or (ok.any() and np.abs(p - r)[ok].max() > 1e-6 * max(1e-9, np.abs(r[ok]).max())):
                            return '%s %d differ' % (name, i)
                if x.bars.shape != y.bars.shape or (x.bars.size and np.abs(x.bars - y.bars).max() > 1e-6 * np.abs(y.bars).max()):
                    return 'bars differ'
                if x.ticks[1] != y.ticks[1] and any(x.ticks[1]) and any(y.ticks[1]):
                    return 'labels %s instead of %s' % (x.ticks[1], y.ticks[1])
    return None


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    from lib import crystal as cr, qp, mdcase
    (session if case['kind'] == 'session' else terminal)(case, mon, rng, cr, qp, mdcase)


def twin(B, o, acts):
    """the same steps through the Python interface: [(figures, text, what the menus show afterwards, value)]"""
    from checks import c24
    from checks.c28 import Screen
    q = c24.api(B, o)
    q.parameters.silent = o.get('silent', False)
    steps = [([], '', display(q, None), None)]
    for name, tokens, f in acts:
        out = io.StringIO()
        with Screen() as s, contextlib.redirect_stdout(out):
            try:
                value = f(q)
            except (ValueError, ZeroDivisionError, FloatingPointError):
                return steps        # what the analysis cannot do ends the session here
            except SystemExit:
                return steps
        with contextlib.redirect_stdout(io.StringIO()):
            steps.append((s.shows, out.getvalue(), display(q, None), value))
    return steps


def find(writes, start):
    got = [w for w in writes if w.startswith(start)]
    return got[0][len(start):].strip() if len(got) == 1 else None


def check_main(mon, writes, want, B, args, info):
    q = find(writes, 'Wave vector:')
    try:
        v = [float(x) for x in q.strip('[]() ').replace(',', ' ').split()]
        mon.close('displayed', v, want['q'], rtol=0, atol=1e-6, info='wave vector ' + info)
    except Exception as e:
        mon.check('displayed', False, 'wave vector shown as %r %s' % (q, e))
    r = find(writes, 'Frequency range:')
    try:
        v = [float(x) for x in r.replace('THz', '').split(' - ')]
        mon.close('displayed', v, want['range'], rtol=1e-6, atol=1e-9, info='range ' + info)
    except Exception as e:
        mon.check('displayed', False, 'range shown as %r %s' % (r, e))
    for start, w in (('Pow. spectr. resolution:', want['resolution']), ('Time step:', want['dt']), ('Primitive cell atoms:', want['atoms'][0]),
                     ('Unit cell atoms:', want['atoms'][1]), ('MD supercell atoms:', want['atoms'][2]),
                     ('Number of MD time steps:', want['steps'])):
        t = find(writes, start)
        try:
            mon.close('displayed', float(t.split()[0]), w, rtol=1e-9, atol=1e-11, info='%s %s' % (start, info))
        except Exception as e:
            mon.check('displayed', False, '%s shown as %r %s' % (start, t, e))
    mon.check('displayed', find(writes, 'Input file:') == args[0][-20:], 'input file')
    if B.load:
        mon.check('displayed', find(writes, 'hdf5 file:') == B.md[-20:], 'store')
    else:
        mon.check('displayed', find(writes, 'MD file:') == B.md[-20:] and find(writes, 'Structure file:') == ('OUTCAR.cell' if B.outcar else 'POSCAR'), 'files')


def check_pref(mon, writes, want, info):
    joined = '\n'.join(writes)
    for words, w in (('MEM coefficients:', want['mem']), ('Boltzmann/displacements):', want['bins']), ('vector scale:', want['scale']),
                     ('spectrum only):', want['nac'])):
        line = [t for t in writes if words in t]
        mon.check('preferences', len(line) == 1 and line[0].split(words)[1].strip() == str(w), '%s shown as %s, is %s %s' % (words, line, w, info))


def session(case, mon, rng, cr, qp, mdcase):
    import runpy
    from checks.c28 import Screen, Ax
    from lib import fake_curses
    B, o, args, comm, born, types = prepare(rng, cr, qp, mdcase)
    acts = actions(rng, comm, born, types, B.fmax)
    info = '%s | %s' % (args, [a[0] for a in acts])
    steps = twin(B, o, acts)
    acts = acts[:len(steps) - 1]
    mon.observe(session=info, steps=len(acts))
    if not acts:
        return
    import dynaphopy.interface.interactive_ui as ui
    tokens = [(t, w, i) for i, a in enumerate(acts) for t, w in a[1]] + [('0', MAIN, len(acts))]
    out = io.StringIO()
    marks, shown = {}, [[] for a in acts]
    state = {'before': None}

    def request(at, kind, window):
        """the program waits for input"""
        if at >= len(tokens):
            return
        token, words, i = tokens[at]
        writes = window.text()
        joined = ' '.join(writes)
        if words is not None:
            mon.check('screens', words in joined, 'request %d (%r of %s) from the screen %s' % (at, token, acts[i][0] if i < len(acts) else 'end',
                                                                                                  writes[:6]))
        mon.check('screens', (kind == 'text') == (not isinstance(token, str)), 'request %d: %s asked, %r given' % (at, kind, token))
        if words == MAIN:
            marks[i] = (out.tell(), len(scr.shows))
            check_main(mon, writes, steps[i][2], B, args, info)
        if words == PREF:
            last = token == '0'
            check_pref(mon, writes, steps[i + int(last)][2], info)
        if words in (ALGO, FITS) and token in '0123':
            mark = [t for t in writes if t.startswith('>')]
            want = steps[i][2]['algorithm' if words == ALGO else 'fit']
            mon.check('preferences', len(mark) == 1 and int(mark[0][1:].split(':')[0]) == want, 'marked %s, selected is %d %s' % (mark, want, info))
            n = len([t for t in writes if t.lstrip('>')[:1].isdigit()])
            mon.check('preferences', n >= (4 if words == ALGO else 3), 'entries ' + str(writes))
        if words == 'Frequencies (THz)':
            got = {}
            for t in writes:
                if ': ' in t and t.split(':')[0].isdigit():
                    got[int(t.split(':')[0])] = float(t.split(':')[1])
            w = np.array(steps[i + 1][3])
            mon.check('frequencies', sorted(got) == list(range(1, len(w) + 1)), 'numbers %s' % sorted(got))
            mon.close('frequencies', [got.get(j + 1, np.nan) for j in range(len(w))], w, rtol=0, atol=5.1e-5, info=info)
    ses = fake_curses.Session([t for t, w, i in tokens], request)
    old = ui.curses, ui.sleep, sys.argv
    qp.reset_parameters()
    try:
        ui.curses, ui.sleep = fake_curses.install(ses), lambda *a: None
        sys.argv = ['dynaphopy'] + args
        with Screen() as scr, contextlib.redirect_stdout(out):
            try:
                g = runpy.run_path(os.path.join(os.environ['DPH_SRC'], 'scripts', 'dynaphopy'), run_name='__main__')
            except SystemExit as e:
                g = {}
                mon.check('state', False, 'the program exits with %s %s' % (e.code, info))
                return
            except fake_curses.OutOfKeys:
                mon.check('screens', False, 'the session did not end ' + info)
                return
    finally:
        ui.curses, ui.sleep, sys.argv = old
    mon.check('screens', not ses.overflow, 'text beyond the screen: %s' % ses.overflow[:3])
    mon.check('screens', ses.at == len(tokens) and not ses.active, '%d of %d keys read, terminal %s' % (ses.at, len(tokens), ses.active))
    text = out.getvalue()
    for i, a in enumerate(acts):
        if i not in marks or i + 1 not in marks:
            continue
        t0, s0 = marks[i]
        t1, s1 = marks[i + 1]
        d = same_figures(scr.shows[s0:s1], steps[i + 1][0])
        mon.check('figures', d is None, '%s: %s %s' % (a[0], d, info), mech='figures')
        said = text[t0:t1]
        if a[0] == 'range':         # the menu repeats the limits
            said = said[:said.rfind('[')] if '[' in said else said
        d = same_text(said, steps[i + 1][1])
        if a[0] in ('range', 'wrong', 'wrong sub'):
            continue
        mon.check('printed', d is None, '%s: %s %s' % (a[0], d, info))
    final = display(g['calculation'], None)
    for k, v in steps[-1][2].items():
        mon.check('state', np.allclose(np.array(v, float), np.array(final[k], float), rtol=1e-9, atol=1e-12), '%s is %s instead of %s %s'
                  % (k, final[k], v, info))
    mon.nontrivial([a[0] for a in acts], args)


DRIVER = '''
import sys, runpy, json, os
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: plt.close('all')      # the user closes the windows
sys.argv = ['dynaphopy'] + json.load(open('session_args.json'))
try:
    g = runpy.run_path(os.path.join(os.environ['DPH_SRC'], 'scripts', 'dynaphopy'), run_name='__main__')
    q = g['calculation']
    p = q.parameters
    r = {'q': [float(x) for x in q.get_reduced_q_vector()], 'range': [float(q.get_frequency_range()[0]), float(q.get_frequency_range()[-1])],
         'mem': int(p.number_of_coefficients_mem), 'bins': int(p.number_of_bins_histogram), 'scale': int(p.modes_vectors_scale),
         'algorithm': int(p.power_spectra_algorithm), 'fit': int(p.fitting_function), 'nac': bool(p.use_NAC),
         'resolution': float(p.spectrum_resolution)}
except BaseException as e:
    r = {'exception': repr(e)}
json.dump(r, open('session_state.json', 'w'))
'''


def terminal(case, mon, rng, cr, qp, mdcase):
    """the real curses in a pseudo terminal"""
    import fcntl
    import pty
    import select
    import struct
    import termios
    import time
    B, o, args, comm, born, types = prepare(rng, cr, qp, mdcase)
    acts = [a for a in actions(rng, comm, born, types, B.fmax) if a[0] not in ('rn2', 'rn3', 'rn4', 'thermal')]
    steps = twin(B, o, acts)
    acts = acts[:len(steps) - 1]
    if not acts:
        return
    json.dump(args, open('session_args.json', 'w'))
    open('driver.py', 'w').write(DRIVER)
    info = '%s | %s' % (args, [a[0] for a in acts])
    master, slave = pty.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', 24, 80, 0, 0))
    env = dict(os.environ, TERM='xterm', PYTHONPATH=os.pathsep.join(p for p in sys.path if p), LINES='24', COLUMNS='80', OMP_NUM_THREADS='1')
    p = subprocess.Popen([sys.executable, '-W', 'ignore', 'driver.py'], stdin=slave, stdout=slave, stderr=slave, env=env, close_fds=True,
                         start_new_session=True)
    os.close(slave)
    seen, sent, quiet, t0 = b'', 0, time.time(), time.time()
    pieces = [('Y' if w is None else t if isinstance(t, str) else t[1] + '\n') for a in acts for t, w in a[1]] + ['0']
    try:
        while time.time() - t0 < 150:
            if select.select([master], [], [], .15)[0]:
                try:
                    b = os.read(master, 65536)
                except OSError:
                    break
                seen += b
                quiet = time.time()
            elif p.poll() is not None:
                break
            elif sent < len(pieces) and time.time() - quiet > .2 and b'Please enter option' in seen \
                    and (not termios.tcgetattr(master)[3] & termios.ICANON or      # the program waits for a key
                         pieces[sent] == 'Y' and time.time() - quiet > 3):
                os.write(master, pieces[sent].replace('Y', '\n').encode())        # the peaks are left with Enter
                sent += 1
                quiet = time.time()
    finally:
        if p.poll() is None:
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        os.close(master)
    if not os.path.exists('session_state.json'):
        mon.count('terminal_sessions_too_slow')
        mon.observe(too_slow='%d of %d keys sent %s' % (sent, len(pieces), info))
        return
    r = json.load(open('session_state.json'))
    if not mon.check('real_terminal', 'exception' not in r, 'the program fails: %s %s' % (r, info)):
        return
    want = steps[-1][2]
    for k, v in r.items():
        mon.check('real_terminal', np.allclose(np.array(v, float), np.array(want[k], float), rtol=1e-9, atol=1e-12),
                  '%s is %s instead of %s %s' % (k, v, want[k], info))
    mon.nontrivial('terminal', [a[0] for a in acts], args)
