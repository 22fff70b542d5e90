"""C01  Native kernels: memory safety, UB, uninitialised reads, leaks, refusal of nonsense."""
import gc
import sys
import numpy as np

RULE = ('calls of the three compiled routines with random lengths (0..400), numeric types, strides, alignment, '
        'read-only flags, dimensions 1..4, valid and nonsensical arguments; under ASan+UBSan builds every call, under '
        'plain builds with perturbed heap contents (uninitialised reads) and heap accounting (leaks). Non-trivial: '
        'a distinct (routine, layout, size class, argument class, outcome) combination')
ASSUMPTIONS = ['gcc 13 ASan/UBSan instrument only the three extension modules; numpy and CPython are trusted',
               'a leak smaller than 24 bytes per call on average is not seen']
FLAVOUR = 'asan'
CPU_LIMIT = 60
MONITORS = ['asan_calls', 'perturb_pairs', 'leak_windows', 'refusals']
MIN_NONTRIVIAL = 60


def generate(tier, seed):
    k = 1 if tier == 'quick' else 6
    cases = []
    for i in range(16 * k):
        cases.append({'kind': 'asan', 'seed': seed * 10007 + i, 'n': 60})
    for i in range(8 * k):
        cases.append({'kind': 'refuse', 'seed': seed * 10007 + 500 + i})
    for i in range(4 * k):
        cases.append({'kind': 'perturb', 'seed': seed * 10007 + 1000 + i, 'flavour': 'plain', 'n': 40})
    for r in ('disp', 'mem', 'corr'):
        for i in range(2 * k):
            cases.append({'kind': 'leak', 'routine': r, 'seed': seed * 10007 + 2000 + i, 'flavour': 'plain',
                          'env': {'PYTHONMALLOC': 'malloc'}})
    return cases


# ---- argument layouts
LAYOUTS = ['plain', 'strided', 'reversed', 'fortran', 'misaligned', 'readonly', 'swapped', 'c64', 'f32', 'int', 'list',
           'bcast']


def lay(rng, a, layout):
    """An object holding (a rounding of) array a in another layout."""
    if layout == 'plain':
        return np.array(a)
    if layout == 'strided':
        b = np.empty((a.shape[0] * 3 + 1,) + a.shape[1:], a.dtype)
        v = b[1::3][:a.shape[0]] if a.shape[0] else b[:0]
        v[...] = a
        return v
    if layout == 'reversed':
        return np.array(a[::-1])[::-1]
    if layout == 'fortran':
        return np.asfortranarray(a)
    if layout == 'misaligned':
        buf = np.zeros(a.nbytes + 16, np.uint8)
        v = buf[3:3 + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if layout == 'readonly':
        b = np.array(a)
        b.flags.writeable = False
        return b
    if layout == 'swapped':
        return a.astype(a.dtype.newbyteorder())
    if layout == 'c64':
        return a.astype(np.complex64) if a.dtype.kind == 'c' else a.astype(np.float32)
    if layout == 'f32':
        return a.real.astype(np.float32)
    if layout == 'int':
        return np.round(a.real * 3).astype(np.int32)
    if layout == 'list':
        return a.tolist()
    if layout == 'bcast':
        return np.broadcast_to(a[:1], a.shape) if len(a) else a
    raise ValueError(layout)


def pick_n(rng):
    return int(rng.choice([2, 3, 4, 5, 7, 8, 11, 16, 31, 33, 64, 100, 127, 200, 333]))


def make_call(rng, layouts=LAYOUTS):
    """(callable, arguments description, input arrays, length of result)"""
    from dynaphopy.displacements import atomic_displacements
    from dynaphopy.power_spectrum import mem, correlation
    r = rng.integers(3)
    la, lb, lc = [str(x) for x in rng.choice(layouts, 3)]
    n = pick_n(rng)
    if r == 0:
        d = int(rng.choice([1, 2, 3, 3, 3, 4]))
        tr = (rng.normal(size=(n, d)) * 10 + 1j * rng.normal(size=(n, d)))
        pos = rng.normal(size=d) * 3
        cell = rng.normal(size=(d, d)) + 5 * np.eye(d)
        a = (lay(rng, tr, la), lay(rng, pos, lb), lay(rng, cell, lc if lc not in ('bcast',) else 'plain'))
        return atomic_displacements, a, {}, (n, d), ('disp', d, la, lb, lc, n)
    nf = int(rng.choice([1, 2, 3, 5, 17, 40]))
    fr = rng.uniform(-10, 50, nf)
    v = rng.normal(size=n) + 1j * rng.normal(size=n) * (0 if rng.integers(4) == 0 else 1)
    fl = lay(rng, fr, lb if lb not in ('f32',) else 'plain')
    vl = lay(rng, v, la)
    if r == 1:
        m = int(rng.choice([0, 1, 2, max(1, n // 2), n - 2 if n > 2 else 1, n - 1, n, n + 1, 2 * n]))
        kw = {'coefficients': m} if rng.integers(5) else {}
        return mem.mem, (fl, vl, float(rng.uniform(1e-4, .05))), kw, (nf,), ('mem', m - n if m > n - 3 else 0, la, lb, n)
    kw = {'step': int(min(n, rng.choice([1, 2, 3, 10, max(1, n // 2), n - 1, n]))),
          'integration_method': int(rng.integers(2))}
    if rng.integers(6) == 0 and n >= 10:
        kw = {}
    return correlation.correlation_par, (fl, vl, float(rng.uniform(1e-4, .05))), kw, (nf,), ('corr', str(kw), la, lb, n)


def snapshot(args):
    return [np.array(x).copy() for x in args[:3]]


REFUSE = []


def refusals(rng):
    """(name, function): calls that must raise an ordinary exception."""
    from dynaphopy.displacements import atomic_displacements as D
    from dynaphopy.power_spectrum import mem, correlation
    M, C = mem.mem, correlation.correlation_par
    n = pick_n(rng)
    fr = rng.uniform(0, 20, int(rng.integers(1, 9)))
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    tr = rng.normal(size=(n, 3)) + 0j
    pos = rng.normal(size=3)
    cell = np.eye(3) * 7 + rng.normal(size=(3, 3)) * .3
    bad = [None, 'abc', object(), {'a': 1}, [[1, 2], [3]], lambda: 0]
    b = bad[int(rng.integers(len(bad)))]
    s = [int(rng.choice([-1, -2, -7, -100, -2 ** 31])), ]
    out = [('mem bad velocity', lambda: M(fr, b, .01, coefficients=3)),
           ('mem bad frequency', lambda: M(b, v, .01, coefficients=3)),
           ('mem bad step', lambda: M(fr, v, 'x')),
           ('mem bad coefficients', lambda: M(fr, v, .01, coefficients='3')),
           ('mem too few', lambda: M(fr)),
           ('mem keyword', lambda: M(fr, v, .01, wrong=3)),
           ('mem negative coefficients', lambda: M(fr, v, .01, coefficients=s[0])),
           ('mem scalar velocity', lambda: M(fr, 3.0, .01, coefficients=1)),
           ('mem scalar frequency', lambda: M(2.0, v, .01, coefficients=1)),
           ('mem huge', lambda: M(fr, v, .01, coefficients=2 ** 40)),
           ('corr bad velocity', lambda: C(fr, b, .01)),
           ('corr bad frequency', lambda: C(b, v, .01)),
           ('corr bad step', lambda: C(fr, v, None)),
           ('corr method', lambda: C(fr, v, .01, integration_method=int(rng.choice([2, -1, 7, 99, 2 ** 31 - 1])))),
           ('corr zero step', lambda: C(fr, v, .01, step=0)),
           ('corr negative step', lambda: C(fr, v, .01, step=s[0])),
           ('corr scalar velocity', lambda: C(fr, 3.0, .01)),
           ('corr scalar frequency', lambda: C(2.0, v, .01)),
           ('corr keyword', lambda: C(fr, v, .01, increment=3)),
           ('disp bad trajectory', lambda: D(b, pos, cell)),
           ('disp bad positions', lambda: D(tr, b, cell)),
           ('disp bad cell', lambda: D(tr, pos, b)),
           ('disp scalar', lambda: D(1.0, 2.0, 3.0)),
           ('disp scalar positions', lambda: D(tr, 1.0, cell)),
           ('disp flat trajectory', lambda: D(tr[:, 0], pos, cell)),
           ('disp narrow trajectory', lambda: D(tr[:, :2], pos, cell)),
           ('disp short positions', lambda: D(tr, pos[:2], cell)),
           ('disp empty positions', lambda: D(tr, pos[:0], cell)),
           ('disp flat cell', lambda: D(tr, pos, cell[0])),
           ('disp rectangular cell', lambda: D(tr, pos, cell[:2])),
           ('disp rectangular cell 2', lambda: D(tr, pos, cell[:, :2])),
           ('disp too few', lambda: D(tr, pos))]
    return out


EMPTY = ['mem no data', 'mem one datum', 'mem no frequencies', 'corr no data', 'corr one datum', 'corr no frequencies',
         'disp no data', 'mem huge coefficients', 'disp singular cell', 'nan', 'inf']


def edge(rng):
    """Borderline calls: an ordinary exception or a well-formed result."""
    from dynaphopy.displacements import atomic_displacements as D
    from dynaphopy.power_spectrum import mem, correlation
    M, C = mem.mem, correlation.correlation_par
    n = pick_n(rng)
    fr = rng.uniform(0, 20, 5)
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    e = np.zeros(0, complex)
    tr = rng.normal(size=(n, 3)) + 0j
    nan = v.copy()
    nan[n // 2] = np.nan
    inf = v.copy()
    inf[0] = np.inf
    cell = np.eye(3) * 6
    return [('mem no data', lambda: M(fr, e, .01, coefficients=1), (5,)),
            ('mem no data 0', lambda: M(fr, e, .01, coefficients=0), (5,)),
            ('mem one datum', lambda: M(fr, v[:1], .01, coefficients=1), (5,)),
            ('mem two data', lambda: M(fr, v[:2], .01, coefficients=1), (5,)),
            ('mem no frequencies', lambda: M(fr[:0], v, .01, coefficients=1), (0,)),
            ('mem zero', lambda: M(fr, v * 0, .01, coefficients=1), (5,)),
            ('mem huge coefficients', lambda: M(fr, v, .01, coefficients=10 ** 6), (5,)),
            ('mem nan', lambda: M(fr, nan, .01, coefficients=1), (5,)),
            ('mem inf', lambda: M(fr, inf, .01, coefficients=1), (5,)),
            ('mem 2d velocity', lambda: M(fr, v[:, None].copy(), .01, coefficients=1), (5,)),
            ('mem zero coefficients', lambda: M(fr, v, .01, coefficients=0), (5,)),
            ('corr no data', lambda: C(fr, e, .01), (5,)),
            ('corr one datum', lambda: C(fr, v[:1], .01, step=1), (5,)),
            ('corr big step', lambda: C(fr, v, .01, step=n + 5), (5,)),
            ('corr big step trapezoid', lambda: C(fr, v, .01, step=2 ** 31 - 1, integration_method=0), (5,)),
            ('corr no frequencies', lambda: C(fr[:0], v, .01, step=1), (0,)),
            ('corr nan', lambda: C(fr, nan, .01, step=1), (5,)),
            ('disp no data', lambda: D(tr[:0], tr[0].real, cell), (0, 3)),
            ('disp singular', lambda: D(tr, tr[0].real, cell * 0), (n, 3)),
            ('disp nan', lambda: D(tr * np.nan, tr[0].real, cell), (n, 3)),
            ('disp huge', lambda: D(tr * 1e300, tr[0].real, cell), (n, 3)),
            ('disp 5d', lambda: D(rng.normal(size=(4, 5)) + 0j, rng.normal(size=5), np.eye(5) * 3), (4, 5))]


def outcome(mon, name, f, must_refuse, shape=None):
    try:
        r = f()
    except SystemError as e:
        mon.fail('silent NULL', '%s: SystemError %s' % (name, e))
        return 'systemerror'
    except Exception as e:
        return type(e).__name__
    if must_refuse:
        mon.fail('accepted nonsense', '%s returned %s instead of raising' % (name, str(np.asarray(r))[:80]))
        return 'accepted'
    r = np.asarray(r)
    if shape is not None and r.shape != shape:
        mon.fail('malformed result', '%s: shape %s instead of %s' % (name, r.shape, shape))
    return 'result'


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    kind = case['kind']
    if kind == 'asan':
        for _ in range(case['n']):
            f, a, kw, shape, desc = make_call(rng)
            before = snapshot(a)
            # several calls, so that heap layout varies
            r = np.asarray(f(*a, **kw))
            mon.evals += 1
            mon.seen('asan_calls')
            if r.shape != shape:
                mon.fail('malformed result', '%s: shape %s instead of %s' % (desc, r.shape, shape))
            for x, y in zip(before, a):
                if np.asarray(y).tobytes() != x.tobytes() and not np.isnan(np.asarray(y)).any():
                    mon.fail('input changed', str(desc))
            mon.nontrivial('asan', desc[0], desc[1], desc[2], desc[3], desc[-1] > 20)
        mon.observe(last=str(desc))
    elif kind == 'refuse':
        seen = {}
        for name, f in refusals(rng):
            mon.evals += 1
            mon.seen('refusals')
            o = outcome(mon, name, f, True)
            seen[name] = o
            mon.nontrivial('refuse', name, o)
        for name, f, shape in edge(rng):
            mon.evals += 1
            mon.seen('edge_calls')
            o = outcome(mon, name, f, False, shape)
            seen[name] = o
            mon.nontrivial('edge', name, o)
        mon.observe(outcomes=seen)
    elif kind == 'perturb':
        import ctypes
        libc = ctypes.CDLL(None)
        for _ in range(case['n']):
            f, a, kw, shape, desc = make_call(rng, ['plain', 'strided', 'c64'])
            res = []
            for p in (0x55, 0xAA, 0x01):
                libc.mallopt(-6, p)           # M_PERTURB
                # numpy keeps small freed blocks: fill them with junk of our own
                junk = [np.full(k, p * 1.5e40) for k in range(1, 40)]
                junk += [np.full(k, p * 1e-30, complex) for k in range(1, 40)]
                del junk
                res.append(np.asarray(f(*a, **kw)).copy())
            libc.mallopt(-6, 0)
            mon.seen('perturb_pairs', 2)
            mon.evals += 1
            if not all(x.tobytes() == res[0].tobytes() for x in res):
                mon.fail('uninitialised', 'result depends on heap contents: %s' % (desc,))
            mon.nontrivial('perturb', desc[0], desc[1], desc[2], desc[-1])
        mon.observe(last=str(desc))
    elif kind == 'leak':
        leak(case, mon, rng)


def leak(case, mon, rng):
    import ctypes

    class MI(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                                   'uordblks', 'fordblks', 'keepcost')]
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MI

    def live():
        gc.collect()
        m = libc.mallinfo2()
        return m.uordblks + m.hblkhd
    from dynaphopy.displacements import atomic_displacements as D
    from dynaphopy.power_spectrum import mem, correlation
    n = int(rng.choice([20, 64, 150, 700]))
    fr = rng.uniform(0, 20, 30)
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    tr = rng.normal(size=(n, 3)) * 5 + 0j
    pos = rng.normal(size=3)
    cell = np.eye(3) * 7 + rng.normal(size=(3, 3)) * .3
    r = case['routine']
    if r == 'disp':
        calls = [('ordinary', lambda: D(tr, pos, cell)), ('converted', lambda: D(tr.real, pos.astype('f'), cell.T)),
                 ('2d', lambda: D(tr[:, :2].copy(), pos[:2].copy(), cell[:2, :2].copy())),
                 ('strided', lambda: D(tr[::2], pos[::-1], cell[::-1])),
                 ('refused cell', lambda: D(tr, pos, 'x')), ('refused positions', lambda: D(tr, 'x', cell)),
                 ('refused trajectory', lambda: D('x', pos, cell)), ('refused shape', lambda: D(tr[:, :2], pos, cell)),
                 ('refused short', lambda: D(tr, pos[:2], cell))]
    elif r == 'mem':
        M = mem.mem
        calls = [('ordinary', lambda: M(fr, v, .01, coefficients=n // 2)), ('one', lambda: M(fr, v, .01, coefficients=1)),
                 ('real', lambda: M(fr, v.real, .01, coefficients=5)), ('constant zero', lambda: M(fr, v * 0, .01, coefficients=5)),
                 ('strided', lambda: M(fr[::2], v[::2], .01, coefficients=5)),
                 ('too many', lambda: M(fr, v, .01, coefficients=n + 10)),
                 ('default', lambda: M(fr, v, .01)), ('order 0', lambda: M(fr, v, .01, coefficients=0)),
                 ('refused velocity', lambda: M(fr, 'x', .01)), ('refused frequency', lambda: M('x', v.real, .01)),
                 ('refused coefficients', lambda: M(fr, v.real, .01, coefficients=-3))]
    else:
        C = correlation.correlation_par
        calls = [('ordinary', lambda: C(fr, v, .01, step=5)), ('trapezoid', lambda: C(fr, v, .01, step=7, integration_method=0)),
                 ('real', lambda: C(fr.astype('f'), v.real, .01, step=9)), ('strided', lambda: C(fr[::2], v[::2], .01)),
                 ('method', lambda: C(fr, v.real, .01, integration_method=5)),
                 ('step', lambda: C(fr, v.real, .01, step=-1)),
                 ('refused velocity', lambda: C(fr, 'x', .01)), ('refused frequency', lambda: C('x', v.real, .01))]
    obs = {}
    inputs = [fr, v, tr, pos, cell]
    for name, f in calls:
        def go(k):
            for _ in range(k):
                try:
                    f()
                except Exception:
                    pass
        go(30)
        rc0 = [sys.getrefcount(x) for x in inputs]
        K = 60
        g = []
        for w in range(3):
            a = live()
            go(K)
            g.append(live() - a)
            mon.seen('leak_windows')
        rc1 = [sys.getrefcount(x) for x in inputs]
        mon.evals += 1
        obs[name] = [int(x) for x in g]
        mon.nontrivial('leak', r, name, n)
        if min(g) >= 24 * K:
            mon.fail('leak:%s' % r, '%s (%s, n=%d): live heap grows %s bytes over three windows of %d calls'
                     % (r, name, n, g, K))
        if any(b - a >= K for a, b in zip(rc0, rc1)):
            mon.fail('refcount:%s' % r, '%s (%s): references to the inputs grow from %s to %s' % (r, name, rc0, rc1))
    mon.observe(growth_bytes=obs)
