"""What a check's run_case reports to."""
import hashlib
import json
import os
import traceback

import numpy as np


def _f(x):
    try:
        return '%.9g' % x
    except Exception:
        return str(x)


class Monitor:
    def __init__(self, case):
        self.case = case
        self.findings = []
        self.counters = {}
        self.monitors = {}
        self.sigs = set()
        self.evals = 0
        self.sample = None

    # -- bookkeeping
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def seen(self, name, n=1):
        """A monitor observed n events."""
        self.monitors[name] = self.monitors.get(name, 0) + int(n)

    def nontrivial(self, *sig):
        self.sigs.add(hashlib.sha1(json.dumps([str(s) for s in sig]).encode()).hexdigest()[:14])

    def observe(self, **kw):
        if self.sample is None:
            self.sample = {k: (v if isinstance(v, (int, str, bool, list, dict)) or v is None else
                               (float(v) if isinstance(v, (float, np.floating)) else str(v)[:200])) for k, v in kw.items()}

    # -- judgements
    def fail(self, mech, msg):
        if len([f for f in self.findings if f['mech'] == mech]) < 3:
            self.findings.append({'mech': mech, 'msg': str(msg)[:900]})

    def check(self, name, cond, msg='', mech=None):
        self.evals += 1
        self.seen(name)
        if not cond:
            self.fail(mech or name, '%s: %s' % (name, msg))
            return False
        return True

    def close(self, name, got, want, rtol=1e-9, atol=0.0, scale=None, mech=None, info=''):
        """Largest deviation against rtol*max|want| (or scale) + atol, elementwise shapes must agree."""
        self.evals += 1
        self.seen(name)
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.dtype == object or want.dtype == object:
                got = np.array(got, dtype=complex)
                want = np.array(want, dtype=complex)
        except Exception as e:
            self.fail(mech or name, '%s: not numeric (%s) %s' % (name, e, info))
            return False
        if got.shape != want.shape:
            self.fail(mech or name, '%s: shape %s instead of %s %s' % (name, got.shape, want.shape, info))
            return False
        if want.size == 0:
            return True
        bad = ~np.isfinite(got) & np.isfinite(want)
        if bad.any():
            self.fail(mech or name, '%s: %d non-finite values %s' % (name, bad.sum(), info))
            return False
        with np.errstate(invalid='ignore'):
            diff = np.where((got == want) | ((got != got) & (want != want)), 0.0, np.abs(got - want))
        s = scale if scale is not None else np.max(np.abs(want[np.isfinite(want)]), initial=0.0)
        tol = rtol * s + atol
        m = float(np.nanmax(diff))
        if not m <= tol:
            i = np.unravel_index(int(np.nanargmax(diff)), diff.shape)
            self.fail(mech or name, '%s: got %s, want %s at %s (deviation %.3g, tolerance %.3g, %d of %d beyond) %s'
                      % (name, got[i], want[i], tuple(int(k) for k in i), m, tol, int((diff > tol).sum()), diff.size, info))
            return False
        return True

    def same(self, name, got, want, mech=None, info=''):
        """Bit for bit."""
        self.evals += 1
        self.seen(name)
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(mech or name, '%s: shape %s instead of %s %s' % (name, got.shape, want.shape, info))
            return False
        ok = got.tobytes() == want.astype(got.dtype).tobytes()
        if not ok:
            eq = (got == want) | ((got != got) & (want != want))
            if eq.all():
                return True
            i = np.unravel_index(int(np.argmin(eq)), eq.shape) if eq.shape else ()
            self.fail(mech or name, '%s: %s != %s at %s (%d of %d differ) %s'
                      % (name, got[i], want[i], i, int((~eq).sum()), eq.size, info))
        return ok

    def exception(self, e, src):
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.abspath(src))]
        where = ''
        if inside:
            f = inside[-1]
            where = ' at %s in %s' % (os.path.relpath(f.filename, src), f.name)
        last = tb[-1]
        mech = 'exception:%s' % type(e).__name__
        self.fail(mech, 'unexpected %s: %s%s [kind %s; last frame %s:%s]'
                  % (type(e).__name__, str(e)[:300], where, self.case.get('kind'),
                     os.path.basename(last.filename), last.lineno))

    def result(self):
        return {'findings': self.findings, 'counters': self.counters, 'monitors': self.monitors,
                'sigs': sorted(self.sigs), 'evals': self.evals, 'sample': self.sample}
