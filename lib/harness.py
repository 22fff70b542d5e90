"""Driver: scratch build of /repo, worker pool, evidence, verdicts."""
import atexit
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DYNAPHOPY_VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
GCC_LIB = '/usr/lib/gcc/x86_64-linux-gnu/13'
EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2

SKIP_DIRS = {'.git', 'build', '__pycache__', 'dist', '.venv', 'venv', 'doc', '.pytest_cache'}


class HarnessError(Exception):
    pass


_scratch_dirs = []


def _cleanup():
    for d in _scratch_dirs:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def make_scratch(prefix):
    d = tempfile.mkdtemp(prefix='dphv_%s_' % prefix, dir='/tmp')
    _scratch_dirs.append(d)
    return d


def _ignore(d, names):
    out = set()
    for n in names:
        if n in SKIP_DIRS or n.endswith('.so') or n.endswith('.pyc') or n.endswith('.egg-info'):
            out.add(n)
    return out


def base_env(scratch):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('DYNAPHOPY', 'OMP_', 'GOMP_', 'LD_', 'PYTHON', 'ASAN_', 'TSAN_', 'UBSAN_'))}
    env.update({'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
                'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
                'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PIP_NO_INDEX': '1',
                'HOME': os.path.join(scratch, 'home'), 'LC_ALL': 'C.UTF-8',
                'DYNAPHOPY_VERIF': '1'})
    os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
    os.makedirs(env['HOME'], exist_ok=True)
    return env


FLAVOURS = {
    'plain': {},
    # no -fno-sanitize-recover: UBSan reports are printed and judged, ASan stops at the first error
    'asan': {'CFLAGS': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined '
                       '-fno-sanitize=vptr -U_FORTIFY_SOURCE',
             'LDFLAGS': '-fsanitize=address,undefined'},
    'tsan': {'CFLAGS': '-O1 -g -fno-omit-frame-pointer -fsanitize=thread -U_FORTIFY_SOURCE',
             'LDFLAGS': '-fsanitize=thread'},
}


def copy_repo(dst):
    shutil.copytree(REPO, dst, symlinks=True, ignore=_ignore)


def build(src, scratch, flavour='plain'):
    """Build the extensions in place in the scratch copy, through the project's own setup.py."""
    env = base_env(scratch)
    spec = FLAVOURS[flavour]
    for k, v in spec.items():
        env[k] = v
    log = os.path.join(scratch, 'build_%s.log' % flavour)
    with open(log, 'wb') as f:
        rc = subprocess.call([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j', '3'],
                             cwd=src, env=env, stdout=f, stderr=subprocess.STDOUT)
    if rc != 0:
        with open(log, errors='replace') as f:
            tail = f.read()[-3000:]
        raise HarnessError('the extensions of %s do not build (%s):\n%s' % (REPO, flavour, tail))
    shutil.rmtree(os.path.join(src, 'build'), ignore_errors=True)


def prepare(scratch, flavours):
    out = {}
    th, errs = [], []

    def one(fl):
        try:
            d = os.path.join(scratch, 'src_' + fl)
            copy_repo(d)
            build(d, scratch, fl)
            out[fl] = d
        except Exception as e:      # noqa
            errs.append(e)
    for fl in flavours:
        t = threading.Thread(target=one, args=(fl,))
        t.start()
        th.append(t)
    for t in th:
        t.join()
    if errs:
        raise HarnessError(str(errs[0]))
    return out


def flavour_env(env, flavour, scratch, tag):
    env = dict(env)
    if flavour == 'asan':
        env['LD_PRELOAD'] = '%s/libasan.so %s/libubsan.so' % (GCC_LIB, GCC_LIB)
        env['ASAN_OPTIONS'] = ('log_path=%s/san_%s:detect_leaks=0:exitcode=87:abort_on_error=0:'
                               'allocator_may_return_null=1:detect_stack_use_after_return=1:'
                               'max_malloc_fill_size=4194304:malloc_fill_byte=190' % (scratch, tag))
        env['UBSAN_OPTIONS'] = 'log_path=%s/san_%s:print_stacktrace=1' % (scratch, tag)
        env['PYTHONMALLOC'] = 'malloc'
    elif flavour == 'tsan':
        env['LD_PRELOAD'] = '%s/libtsan.so %s/gompshim.so' % (GCC_LIB, scratch)
        env['TSAN_OPTIONS'] = ('log_path=%s/san_%s:halt_on_error=0:exitcode=0:report_signal_unsafe=0:'
                               'history_size=4:die_after_fork=0' % (scratch, tag))
        env['SHIM_LIB'] = os.path.join(scratch, 'gompshim.so')
    return env


class Worker:
    def __init__(self, check_name, src, scratch, env, tag):
        self.tag = tag
        self.scratch = scratch
        self.cwd = os.path.join(scratch, 'w_' + tag)
        os.makedirs(self.cwd, exist_ok=True)
        env = dict(env)
        env['PYTHONPATH'] = os.pathsep.join([src, VERIF])
        env['DPH_SRC'] = src
        env['DPH_SCRATCH'] = scratch
        r, w = os.pipe()
        self.log = open(os.path.join(scratch, 'log_' + tag), 'ab')
        self.p = subprocess.Popen([PY, '-u', '-W', 'ignore', '-m', 'lib.worker', check_name, str(w)],
                                  stdin=subprocess.PIPE, stdout=self.log, stderr=self.log, cwd=self.cwd,
                                  env=env, pass_fds=(w,), preexec_fn=os.setsid)
        os.close(w)
        self.r = os.fdopen(r, 'rb')
        self.buf = b''

    def cpu(self):
        """CPU seconds of the worker's process group leader (own children only)."""
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                parts = f.read().rsplit(')', 1)[1].split()
            return sum(int(x) for x in parts[11:15]) / float(os.sysconf('SC_CLK_TCK'))
        except Exception:
            return 0.0

    def run(self, case, limit):
        import select
        try:
            self.p.stdin.write((json.dumps(case) + '\n').encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return {'crash': self.wait()}
        t0, c0 = time.time(), self.cpu()
        while True:
            rl, _, _ = select.select([self.r], [], [], 0.5)
            if rl:
                line = self.r.readline()
                if not line:
                    return {'crash': self.wait()}
                return json.loads(line)
            wall, cpu = time.time() - t0, self.cpu() - c0
            if cpu > limit or wall > 4 * limit:
                self.kill()
                return {'timeout': [wall, cpu]}

    def wait(self):
        try:
            return self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.kill()
            return -9

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(15)
        except subprocess.TimeoutExpired:
            pass
        self.kill()
        try:
            self.r.close()
        except Exception:
            pass
        self.log.close()

    def sanitizer_text(self):
        txt = ''
        for n in sorted(os.listdir(self.scratch)):
            if n.startswith('san_%s.' % self.tag):
                p = os.path.join(self.scratch, n)
                with open(p, errors='replace') as f:
                    txt += f.read()
                os.remove(p)
        return txt


def case_sig(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def run_pool(check_name, cases, srcs, scratch, nworkers, limit, default_flavour, extra_env=None):
    q = queue.Queue()
    for i, c in enumerate(cases):
        q.put((i, c))
    results = [None] * len(cases)
    lock = threading.Lock()
    errors = []
    env0 = base_env(scratch)
    if extra_env:
        env0.update(extra_env)

    def loop(n):
        workers = {}
        try:
            while not errors:
                try:
                    i, c = q.get_nowait()
                except queue.Empty:
                    break
                fl = c.get('flavour', default_flavour)
                envx = c.get('env') or {}
                key = (fl, json.dumps(envx, sort_keys=True))
                res = None
                for attempt in (0, 1):
                    w = workers.get(key)
                    if w is None:
                        tag = '%d_%s_%s' % (n, fl, hashlib.sha1(key[1].encode()).hexdigest()[:5])
                        e = flavour_env(env0, fl, scratch, tag)
                        e.update(envx)
                        w = workers[key] = Worker(check_name, srcs[fl], scratch, e, tag)
                    lim = limit * (4 if fl != 'plain' else 1)
                    res = w.run(c, c.get('limit', lim))
                    if 'timeout' in res or 'crash' in res:
                        san = w.sanitizer_text()
                        w.close()
                        del workers[key]
                        with open(os.path.join(scratch, 'log_' + w.tag), errors='replace') as f:
                            tail = f.read()[-2500:]
                        res['tail'] = tail
                        res['san'] = san[:6000]
                        if 'HARNESS-IMPORT-ERROR' in tail:
                            errors.append('worker cannot import: ' + tail[-1500:])
                            break
                        continue            # once more, to tell chance from fact
                    if fl != 'plain':
                        san = w.sanitizer_text()
                        if san:
                            res['san'] = san[:6000]
                    break
                with lock:
                    results[i] = res
        except Exception as e:       # noqa
            import traceback
            errors.append(traceback.format_exc())
        finally:
            for w in workers.values():
                w.close()

    ts = [threading.Thread(target=loop, args=(n,)) for n in range(min(nworkers, max(1, len(cases))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise HarnessError(errors[0])
    return results


SAN_RE = re.compile(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)')


def san_findings(text):
    """Sanitizer reports that involve the extension modules."""
    out = []
    for m in SAN_RE.finditer(text):
        line = m.group(1)
        if 'AddressSanitizer' in line:
            kind = re.search(r'AddressSanitizer: ([\w-]+)', line)
            mod = re.search(r'/c/(\w+)\.c', text[m.start():m.start() + 4000])
            out.append(('asan:%s' % (kind.group(1) if kind else 'error'),
                        line[:200] + (' in ' + mod.group(1) + '.c' if mod else '')))
        else:
            if re.search(r'(correlation|mem|displacements)\.c', line):
                out.append(('ubsan:' + re.sub(r'[^a-z ]', '', line.split('runtime error:')[1])[:40].strip(), line[:300]))
    for block in text.split('=================='):
        m = re.search(r'WARNING: ThreadSanitizer: ([a-z -]+)', block)
        if m and re.search(r'c/(correlation|mem|displacements)\.c', block):
            w = re.search(r'SUMMARY: ThreadSanitizer: [^\n]*', block)
            out.append(('tsan:' + m.group(1).strip().split(' (')[0], w.group(0)[:300] if w else block[:300]))
    return out


def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#'):
                    known.append(json.loads(line))
    return known


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--only', help='only cases of this kind')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(argv)
    pid = a.id.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()

    sys.path.insert(0, VERIF)
    name = 'checks.' + pid.lower()
    # driver side: the check module must be importable without dynaphopy
    mod = importlib.import_module(name)

    scratch = make_scratch(pid)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)

    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = mod.generate(tier, a.seed)
        if a.only:
            cases = [c for c in cases if c.get('kind') == a.only]
    default_fl = getattr(mod, 'FLAVOUR', 'plain')
    flavours = sorted(set([c.get('flavour', default_fl) for c in cases]))
    try:
        srcs = prepare(scratch, flavours)
        extra_env = mod.setup(scratch, srcs, PY) if hasattr(mod, 'setup') else None
        results = run_pool(name, cases, srcs, scratch, a.workers,
                           getattr(mod, 'CPU_LIMIT', 100), default_fl, extra_env)
    except HarnessError as e:
        print('ERROR: %s' % e)
        return EXIT_ERROR

    # ---- verdict
    findings, counters, samples, sigs, evals, harness_err = [], {}, [], set(), 0, []
    monitors = {}
    for case, res in zip(cases, results):
        if res is None:
            harness_err.append('case not run: %s' % json.dumps(case)[:300])
            continue
        if 'crash' in res:
            fs = san_findings(res.get('san', ''))
            mech = fs[0][0] if fs else 'crash:%s' % res['crash']
            msg = fs[0][1] if fs else 'the process died (status %s)' % res['crash']
            findings.append((mech, '%s [kind %s] %s' % (msg, case.get('kind'), res.get('tail', '')[-300:] if not fs else ''), case))
            evals += 1
            continue
        if 'timeout' in res:
            findings.append(('hang', 'no result after %.0f s wall, %.0f s CPU, twice [kind %s]'
                             % (res['timeout'][0], res['timeout'][1], case.get('kind')), case))
            evals += 1
            continue
        if res.get('harness_error'):
            harness_err.append(res['harness_error'])
            continue
        for mech, msg in san_findings(res.get('san', '')):
            findings.append((mech, msg, case))
        for f in res.get('findings', []):
            findings.append((f['mech'], f['msg'], case))
        evals += res.get('evals', 0)
        for k, v in res.get('counters', {}).items():
            counters[k] = counters.get(k, 0) + v
        for k, v in res.get('monitors', {}).items():
            monitors[k] = monitors.get(k, 0) + v
        for s in res.get('sigs', []):
            sigs.add(s)
        if len(samples) < 6 and res.get('sample') is not None:
            kinds = [s.get('kind') for s in samples]
            if kinds.count(case.get('kind')) < 2:
                samples.append({'kind': case.get('kind'), 'case': {k: v for k, v in case.items()}, 'observed': res['sample']})

    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'known']
    knownkeys = {k['key']: k for k in known}
    by_mech = {}
    seen_known = {}
    for mech, msg, case in findings:
        if mech in knownkeys:
            seen_known.setdefault(mech, msg)
            continue
        by_mech.setdefault(mech, []).append((msg, case))

    rc = EXIT_OK
    out = []
    for n, (mech, lst) in enumerate(sorted(by_mech.items(), key=lambda x: -len(x[1]))):
        if n >= 12:
            break
        msg, case = lst[0]
        rp = os.path.join(rdir, '%s_%02d.json' % (pid, n))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'mechanism': mech, 'message': msg, 'occurrences': len(lst),
                       'case': case, 'replay_with': 'python run.py %s --replay %s' % (pid, rp)}, f, indent=1)
        out.append('VIOLATION property=%s replay=%s' % (pid, rp))
        out.append('  %s (%d case(s)): %s' % (mech, len(lst), msg[:600]))
        rc = EXIT_VIOLATION
    for mech in sorted(seen_known):
        out.append('KNOWN-FINDING: property=%s %s' % (pid, knownkeys[mech]['what']))
    unseen = [k for k in knownkeys if k not in seen_known]

    min_nt = getattr(mod, 'MIN_NONTRIVIAL', 2)
    if not a.replay and not a.only and rc == EXIT_OK:
        missing = [m for m in getattr(mod, 'MONITORS', []) if monitors.get(m, 0) == 0]
        if missing:
            harness_err.append('monitors that observed nothing: %s' % missing)
        if len(sigs) < min_nt:
            harness_err.append('only %d distinct non-trivial cases observed' % len(sigs))

    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': int(evals), 'distinct_nontrivial': len(sigs),
                       'rule': mod.RULE, 'samples': samples or [{'note': 'no sample'}],
                       'cases': len(cases), 'monitor_events': monitors, 'counters': counters},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(by_mech)}
    if seen_known:
        ev['coverage']['known_findings_seen'] = sorted(seen_known)
    if unseen:
        ev['coverage']['known_findings_not_seen'] = sorted(unseen)
    if not a.replay:
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    for line in out:
        print(line)
    if rc == EXIT_OK and harness_err:
        for h in harness_err[:5]:
            print('ERROR: %s' % h)
        rc = EXIT_ERROR
    print('%s %s tier=%s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d monitor kinds, %.1f s'
          % (pid, {0: 'HELD', 1: 'VIOLATED', 2: 'ERROR'}[rc], tier, a.seed, len(cases), evals, len(sigs),
             len(monitors), time.time() - t0))
    if a.keep:
        _scratch_dirs.clear()
        print('scratch kept:', scratch)
    return rc
