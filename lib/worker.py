"""Runs cases of one check in a process of its own; one JSON case per line on stdin."""
import importlib
import json
import os
import sys
import traceback


def main():
    name, fd = sys.argv[1], int(sys.argv[2])
    out = os.fdopen(fd, 'wb', buffering=0)
    src = os.environ['DPH_SRC']
    try:
        import dynaphopy
        assert os.path.abspath(dynaphopy.__file__).startswith(os.path.abspath(src) + os.sep), dynaphopy.__file__
        mod = importlib.import_module(name)
        from lib.monitor import Monitor
        import numpy as np
    except BaseException:
        traceback.print_exc()
        print('HARNESS-IMPORT-ERROR', file=sys.stderr)
        sys.stderr.flush()
        sys.stdout.flush()
        os._exit(3)
    base_cwd = os.getcwd()
    n = 0
    # exit() in the code under test closes sys.stdin
    cases = os.fdopen(os.dup(0))
    for line in cases:
        sys.stdin = open(os.devnull)
        case = json.loads(line)
        n += 1
        d = os.path.join(base_cwd, 'c%d' % n)
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        mon = Monitor(case)
        np.random.seed(int(case.get('seed', 1)) % (2 ** 32))
        res = {}
        try:
            mod.run_case(case, mon)
        except MemoryError:
            res['harness_error'] = 'out of memory'
        except (KeyboardInterrupt, ImportError):
            res['harness_error'] = traceback.format_exc()[-1500:]
        except OSError as e:
            if e.errno in (28, 12, 24):
                res['harness_error'] = traceback.format_exc()[-1500:]
            else:
                mon.exception(e, src)
        except BaseException as e:
            mon.exception(e, src)
        res.update(mon.result())
        os.chdir(base_cwd)
        try:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        except Exception:
            pass
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
        sys.stdout.flush()
        out.write((json.dumps(res) + '\n').encode())
    os._exit(0)


main()
