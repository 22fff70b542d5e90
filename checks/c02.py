"""C02  Native kernels: data races, invariance under threads/schedules/batches, inputs untouched."""
import hashlib
import os
import subprocess
import sys
import numpy as np

RULE = ('random signals (real, complex, constant, short, long) and frequency lists run (a) under ThreadSanitizer on a '
        'pthread OpenMP stand-in with random thread start delays and 2..8 threads, (b) with the real libgomp at 1..16 '
        'threads, dynamic adjustment and oversubscription, results compared bit for bit, (c) frequency lists split, '
        'permuted, repeated and extended. Non-trivial: a distinct (routine, threads, size class, rule) combination in '
        'which more than one thread ran or more than one batch was compared')
ASSUMPTIONS = ['ThreadSanitizer reports only races of executed access pairs; libgomp itself is replaced by the stand-in '
               'native/gompshim.c there']
FLAVOUR = 'plain'
CPU_LIMIT = 90
MONITORS = ['tsan_regions', 'thread_counts', 'subset', 'inputs', 'env_threads']
MIN_NONTRIVIAL = 40


def setup(scratch, srcs, py):
    from lib.harness import VERIF, HarnessError
    rc = subprocess.run(['gcc', '-O1', '-g', '-fPIC', '-shared', '-fsanitize=thread',
                         os.path.join(VERIF, 'native/gompshim.c'), '-o', os.path.join(scratch, 'gompshim.so'), '-lpthread'],
                        capture_output=True)
    if rc.returncode:
        raise HarnessError('gompshim does not build: %s' % rc.stderr.decode()[-500:])


def generate(tier, seed):
    k = 1 if tier == 'quick' else 8
    cases = []
    for i in range(8 * k):
        cases.append({'kind': 'tsan', 'flavour': 'tsan', 'seed': seed * 7919 + i, 'n': 12, 'env': {'SHIM_THREADS': str([2, 3, 4, 8][i % 4])}})
    for i in range(8 * k):
        cases.append({'kind': 'threads', 'seed': seed * 7919 + 100 + i, 'n': 12, 'env': {'OMP_NUM_THREADS': '8'}})
    for i in range(6 * k):
        cases.append({'kind': 'subset', 'seed': seed * 7919 + 200 + i, 'n': 25, 'env': {'OMP_NUM_THREADS': str([1, 5][i % 2])}})
    for i in range(2 * k):
        cases.append({'kind': 'envs', 'seed': seed * 7919 + 300 + i})
    return cases


def rand_args(rng, small=False):
    from dynaphopy.power_spectrum import mem, correlation
    n = int(rng.choice([12, 30, 61, 100, 150] if small else [12, 40, 90, 200, 350]))
    nf = int(rng.choice([1, 2, 3, 8, 17, 64] if small else [1, 3, 8, 33, 100, 400]))
    t = np.arange(n) * .01
    v = np.zeros(n, complex)
    for _ in range(3):
        v += rng.normal() * np.exp(1j * (2 * np.pi * rng.uniform(-20, 20) * t + rng.uniform(0, 6)))
    v += .3 * (rng.normal(size=n) + 1j * rng.normal(size=n))
    c = int(rng.integers(4))
    if c == 0:
        v = v.real + 0j
    fr = np.linspace(0, 40, nf) if rng.integers(2) else rng.uniform(-10, 45, nf)
    # lists with repeated entries: neighbours, cycles, all the same
    r = int(rng.integers(8))
    if r == 0:
        fr = np.repeat(fr, 1 + rng.integers(1, 6, nf))
    elif r == 1:
        fr = np.tile(fr[:max(1, nf // 8)], 8)
    elif r == 2:
        fr = np.full(nf, fr[-1])
    elif r == 3:
        fr = np.sort(np.round(fr))
    if rng.integers(2):
        m = int(rng.integers(1, min(n - 2, 60)))
        return 'mem', mem.mem, fr, v, {'coefficients': m}, (n > 80, nf > 16, c == 0)
    kw = {'step': int(rng.integers(1, 11)), 'integration_method': int(rng.integers(2))}
    return 'corr', correlation.correlation_par, fr, v, kw, (n > 80, nf > 16, c == 0, kw['integration_method'])


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    kind = case['kind']
    if kind == 'tsan':
        import ctypes
        L = ctypes.CDLL(os.environ['SHIM_LIB'])
        for i in range(case['n']):
            name, f, fr, v, kw, sig = rand_args(rng, True)
            L.omp_set_num_threads(1)
            ref = f(fr, v, .01, **kw)
            res = []
            for th in rng.choice([2, 3, 4, 5, 8], 3):
                L.omp_set_num_threads(int(th))
                L.shim_seed(int(rng.integers(2 ** 31)))
                r0, s0 = L.shim_regions(), L.shim_spawned()
                res.append(f(fr, v, .01, **kw))
                mon.seen('tsan_regions', L.shim_regions() - r0)
                mon.count('tsan_threads_spawned', L.shim_spawned() - s0)
                mon.nontrivial('tsan', name, int(th), sig)
            for x in res:
                mon.same('thread_counts', x, ref, mech='thread dependence', info='%s %s' % (name, kw))
        mon.observe(routine=name, args=str(kw))
        return
    if kind == 'threads':
        import ctypes
        L = ctypes.CDLL('libgomp.so.1')
        for i in range(case['n']):
            name, f, fr, v, kw, sig = rand_args(rng)
            vb, fb = v.copy(), fr.copy()
            L.omp_set_num_threads(1)
            ref = f(fr, v, .01, **kw)
            for th in (2, 3, 7, 8, 16):
                L.omp_set_num_threads(th)
                L.omp_set_dynamic(int(rng.integers(2)))
                for rep in range(2):
                    x = f(fr, v, .01, **kw)
                    mon.same('thread_counts', x, ref, mech='thread dependence', info='%s %s threads %d' % (name, kw, th))
                mon.nontrivial('threads', name, th, sig)
            mon.check('inputs', v.tobytes() == vb.tobytes() and fr.tobytes() == fb.tobytes(), 'arguments of %s changed' % name)
        mon.observe(routine=name, args=str(kw), value0=float(ref[0]))
        return
    if kind == 'subset':
        from dynaphopy.displacements import atomic_displacements
        for i in range(case['n']):
            name, f, fr, v, kw, sig = rand_args(rng)
            vb, fb = v.copy(), fr.copy()
            fr.flags.writeable = False
            v.flags.writeable = False
            ref = f(fr, v, .01, **kw)
            mon.check('inputs', v.tobytes() == vb.tobytes() and fr.tobytes() == fb.tobytes(), 'arguments of %s changed' % name)
            info = '%s %s' % (name, kw)
            p = rng.permutation(len(fr))
            tol = dict(rtol=0, mech='frequency dependence')

            def cmp(x, y):
                mon.close('subset', x / np.maximum(np.abs(y), 1e-300), y / np.maximum(np.abs(y), 1e-300) if len(y) else y,
                          rtol=0, atol=1e-6 if name == 'corr' else 1e-9, mech='frequency dependence', info=info) \
                    if name == 'mem' else mon.close('subset', x, y, rtol=1e-9, scale=float(np.abs(ref).max()) + 1e-300,
                                                    mech='frequency dependence', info=info)
            cmp(f(fr[p], v, .01, **kw), ref[p])
            if len(fr) <= 120:      # every frequency asked for alone
                cmp(np.concatenate([f(fr[j:j + 1], v, .01, **kw) for j in range(len(fr))]), ref)
            j = np.sort(rng.integers(0, len(fr), 3 * len(fr)))      # repeated entries
            cmp(f(fr[j], v, .01, **kw), ref[j])
            k = int(rng.integers(0, len(fr)))
            cmp(f(fr[k:k + 1], v, .01, **kw), ref[k:k + 1])
            cmp(f(np.concatenate([fr, fr[::-1], rng.uniform(0, 99, 5)]), v, .01, **kw)[:len(fr)], ref)
            mon.nontrivial('subset', name, sig, len(fr))
            # displacements: inputs
            tr = rng.normal(size=(20, 3)) * 9 + 0j
            pos = rng.normal(size=3)
            cell = np.eye(3) * 5 + rng.normal(size=(3, 3))
            b = (tr.copy(), pos.copy(), cell.copy())
            for a in (tr, pos, cell):
                a.flags.writeable = False
            atomic_displacements(tr, pos, cell)
            mon.check('inputs', all(x.tobytes() == y.tobytes() for x, y in zip(b, (tr, pos, cell))),
                      'arguments of atomic_displacements changed')
        mon.observe(routine=name, args=str(kw))
        return
    if kind == 'envs':
        hashes = {}
        for env in ({'OMP_NUM_THREADS': '1'}, {'OMP_NUM_THREADS': '2'}, {'OMP_NUM_THREADS': '5', 'OMP_WAIT_POLICY': 'passive'},
                    {'OMP_NUM_THREADS': '8', 'OMP_PROC_BIND': 'true'}, {'OMP_NUM_THREADS': '16', 'OMP_DYNAMIC': 'true'},
                    {'OMP_NUM_THREADS': '8', 'OMP_THREAD_LIMIT': '3'}):
            e = dict(os.environ)
            e.update(env)
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from checks.c02 import digest; digest(%d)' % case['seed']],
                               env=e, capture_output=True, text=True, timeout=240)
            if p.returncode:
                mon.fail('crash', 'child with %s: status %s %s' % (env, p.returncode, p.stderr[-300:]))
                continue
            hashes[str(env)] = p.stdout.strip().split()[-1]
            mon.seen('env_threads')
            mon.evals += 1
            mon.nontrivial('env', str(env))
        if len(set(hashes.values())) > 1:
            mon.fail('thread dependence', 'results differ between environments: %s' % hashes)
        mon.observe(digests=hashes)


def digest(seed):
    rng = np.random.default_rng(seed)
    h = hashlib.sha1()
    for i in range(20):
        name, f, fr, v, kw, sig = rand_args(rng)
        h.update(np.asarray(f(fr, v, .01, **kw)).tobytes())
    print(h.hexdigest())
