"""C16  Interrupted trajectory files are read as a clean prefix or refused."""
import os

import numpy as np

RULE = ('trajectory files of every format cut at every byte (short files) or at sampled bytes of every kind of line (longer ones), read with '
        'and without windows and memory mapping; the frames returned must be the first complete ones with their times and energies, or the '
        'reading must fail visibly. Non-trivial: a distinct cut')
ASSUMPTIONS = ['a frame whose last line lacks only its line end may be taken or left', 'errors, messages ending the program count as visible failures']
MONITORS = ['prefix', 'frames_and_times', 'complete_frames_kept', 'cell_of_file']
MIN_NONTRIVIAL = 500
CPU_LIMIT = 300


def generate(tier, seed):
    k = 1 if tier == 'quick' else 10
    F = ('lammps_x', 'lammps_v', 'xdatcar', 'outcar')
    return ([{'kind': 'every', 'fmt': f, 'seed': seed * 911 + i} for i in range(2 * k) for f in F] +
            [{'kind': 'sampled', 'fmt': f, 'seed': seed * 919 + i} for i in range(12 * k) for f in F])


def frame_ends(k, n):
    """Position in the file just before the line end that completes each frame, and just after what later frames need."""
    t = k.text
    ends = []
    if k.fmt.startswith('lammps'):
        marks = [i for i in range(len(t)) if t.startswith('ITEM: TIMESTEP', i)] + [len(t)]
        ends = [m - 1 for m in marks[1:]]
    elif k.fmt == 'xdatcar':
        nat = k.frames.shape[1]
        pos = 0
        for _ in range(n):
            pos = t.index('Direct configuration', pos)
            p = pos
            for _ in range(nat + 1):
                p = t.index('\n', p) + 1
            ends.append(p - 1)
            pos = p
    else:
        pos = 0
        for _ in range(n):
            pos = t.index('POSITION', pos)
            e = t.index('energy(sigma', pos)
            e = t.index('\n', e)
            ends.append(e)
            pos = e
    return ends


def run_case(case, mon):
    import warnings
    warnings.simplefilter('ignore')
    from lib import crystal as cr, mdcase
    rng = np.random.default_rng(case['seed'])
    while True:
        c, sc, n, pos = mdcase.small_case(rng, max_atoms=4 if case['kind'] == 'every' else 20, minframes=3, maxframes=3 if case['kind'] == 'every' else 9,
                                          nprim=1 if case['kind'] == 'every' else None)
        if case['kind'] == 'every' or pos.shape[1] > 1:
            break
    s = cr.to_structure(c)
    k = mdcase.write(rng, case['fmt'], c, sc, pos, 'full', vel=rng.normal(size=pos.shape) * 40)
    data = k.text.encode()
    ends = frame_ends(k, n)
    fn = mdcase.reader(k.fmt)
    if case['kind'] == 'every':
        start = data.find(b'\n') if k.fmt != 'outcar' else max(0, ends[0] - 1500)
        cuts = range(max(1, start), len(data) + 1)
        if len(cuts) > 2600:
            cuts = sorted(set(rng.choice(np.array(cuts), 2600, replace=False).tolist()) | {e + j for e in ends for j in (-2, -1, 0, 1, 2) if 0 < e + j <= len(data)})
    else:
        cuts = set(int(x) for x in rng.integers(1, len(data) + 1, 60))
        for e in ends:
            for j in list(range(-14, 3)) + [int(x) for x in rng.integers(-200, 200, 4)]:
                if 0 < e + j <= len(data):
                    cuts.add(e + j)
        cuts = sorted(cuts)
    f = open('cut', 'wb')
    refused = 0
    for cut in cuts:
        with open('cut', 'wb') as f:
            f.write(data[:cut])
        first = int(rng.integers(1, n + 1)) if rng.integers(3) == 0 else 1
        last = int(rng.integers(first, n + 2)) if rng.integers(3) == 0 else None
        steps = int(rng.integers(1, n + 1)) if rng.integers(4) == 0 else None
        memmap = last is not None and bool(rng.integers(2))
        a = {'memmap': memmap}
        if first > 1 or rng.integers(2):
            a['initial_cut'] = first
        if last:
            a['end_cut'] = last
        if steps:
            a['last_steps'] = steps
        surely = sum(1 for e in ends if cut > e)
        maybe = sum(1 for e in ends if cut >= e)
        mon.count('cuts')
        info = '%s cut at %d of %d bytes (%r), %s' % (k.fmt, cut, len(data), data[max(0, cut - 25):cut].decode(), a)
        try:
            with cr.quiet():
                d = fn('cut', structure=s, time_step=k.time_step, **a)
                got = np.asarray(mdcase.content(k, d)) if d.get_time() is not None and len(d.get_time()) else np.zeros((0,))
                t = np.asarray(d.get_time(), float)
                stored = [x for x in (d._trajectory, d._scaled_trajectory, d._velocity) if x is not None]
                stored = len(stored[0])
                en = d.get_energy()
        except (Exception, SystemExit):
            refused += 1
            mon.count('refused')
            continue
        mon.nontrivial(k.fmt, cut, len(data), str(a))
        mon.check('frames_and_times', stored == len(t) and (en is None or len(en) == len(t)),
                  '%d frames, %d times, energies %s %s' % (stored, len(t), None if en is None else len(en), info))
        ok = False
        m = len(t)
        for complete in {surely, maybe}:
            sel = np.arange(complete)[first - 1:last]
            if steps:
                sel = sel[-steps:]
            want, tw = k.frames[sel], k.times[sel]
            if k.fmt == 'outcar':
                tw = tw - (tw[0] if len(tw) else 0)
            if m == len(sel):
                if m == 0:
                    ok = True
                elif got.shape == want.shape and np.abs(got - want).max() < 1e-7 * max(1, np.abs(want).max()) and np.abs(t - tw).max() < 1e-12 + 1e-9 * np.abs(tw).max():
                    ok = k.energy is None or np.abs(np.array(en, float) - k.energy[sel]).max() < 1e-8
        if not ok:
            # a shorter clean prefix is allowed as well
            for complete in range(surely):
                sel = np.arange(complete)[first - 1:last]
                if steps:
                    sel = sel[-steps:]
                if m == len(sel) and (m == 0 or (got.shape == k.frames[sel].shape and np.abs(got - k.frames[sel]).max() < 1e-7 * max(1, np.abs(got).max()))):
                    tw = k.times[sel] - (k.times[sel][0] if k.fmt == 'outcar' and len(sel) else 0)
                    ok = m == 0 or np.abs(t - tw).max() < 1e-12 + 1e-9 * np.abs(tw).max()
                    mon.count('shorter prefix')
                    if ok:
                        break
        mon.check('prefix', ok, '%d frames returned, between %d and %d complete; %s; times %s' % (m, surely, maybe, info, t[:4]), mech='%s: not a prefix' % k.fmt)
        if surely:
            mon.seen('complete_frames_kept')
        if m:
            mon.close('cell_of_file', np.array(d.get_supercell(), float), k.cell, rtol=1e-8, info=info)
        del d
    mon.check('complete_frames_kept', refused < len(cuts), 'every cut refused')
    mon.observe(fmt=k.fmt, cuts=len(cuts), refused=refused, frames=n)
