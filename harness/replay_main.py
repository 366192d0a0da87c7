"""Runs recorded cases on the real package: replay_main.py CASES.json OUT (one JSON line per case)

Runs under the project's interpreter; the package is imported from
/repo/src (pure reader) or from the directory in VERIF_AVB_PATH."""
import gc
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('VERIF_AVB_PATH', '/repo/src'))
sys.dont_write_bytecode = True
os.environ['TZ'] = ':' + os.path.join(HERE, 'zone.tz')     # not UTC, and with one summer time (see symx/shims.py)
time.tzset()


class Timeout(BaseException):
    pass


def main():
    from harness import REG
    from harness import conc
    import harness.all  # noqa: F401
    with open(sys.argv[1]) as f:
        req = json.load(f)
    known = req['known_ids']
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
    out = open(sys.argv[2], 'w')
    devnull = open(os.devnull, 'w')
    real = sys.stdout
    for case in req['cases']:
        tmp = tempfile.mkdtemp(prefix='avbreplay')
        res = {'failed': [], 'known': [], 'obs': [], 'assume': False, 'exc': None}
        s = conc.S(case, known, tmp)
        sys.stdout = devnull
        gc.collect()
        gc.disable()
        try:
            signal.setitimer(signal.ITIMER_REAL, req.get('timeout', 20))
            try:
                REG[case['harness']].fn(s, case['param'])
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except conc.AssumeFailed:
            res['assume'] = True
        except Timeout:
            s.failed.append('timeout')
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            own = os.path.dirname(tb.tb_frame.f_code.co_filename) == HERE
            obj = type(getattr(e, 'obj', None)).__name__
            if own and (isinstance(e, ImportError) or
                        isinstance(e, AttributeError) and obj in ('module', 'type', 'AVBFile')):
                # the harness relies on a name the sources no longer have: no verdict
                res['assume'] = True
                res['exc'] = traceback.format_exc()[-1200:]
                s.failed = []
            else:
                s.failed.append('unexpected %s: %s' % (type(e).__name__, str(e)[:160]))
                res['exc'] = traceback.format_exc()[-1200:]
        finally:
            sys.stdout = real
            shutil.rmtree(tmp, ignore_errors=True)
        res['failed'] = s.failed
        res['known'] = s.known
        res['obs'] = s.obs_l
        out.write(json.dumps(res) + '\n')
        out.flush()
    out.close()


if __name__ == '__main__':
    main()
