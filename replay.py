"""Run harnesses on the REAL code (ordinary interpreter, nothing instrumented).

usage: replay.py FILE.json        (one counterexample: exit 1 if it reproduces)
       replay.py --batch          (JSON list of cases on stdin, JSON results on stdout)
"""
import io
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)


def run_case(case):
    import importlib
    from sym.ctx import ConcCtx, AssumeFailed
    mod = importlib.import_module('harness.' + case['module'])
    ctx = ConcCtx(case['inputs'])
    err, out = sys.stderr, sys.stdout
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()
    exc = None
    assume = True
    try:
        getattr(mod, case['func'])(ctx, **case.get('params', {}))
    except AssumeFailed:
        assume = False
    except BaseException as e:       # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        import traceback
        exc = '%s: %s' % (type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)
        exc += ' at %s:%s' % (tb[-1].filename, tb[-1].lineno)
    finally:
        ctx.unstub()
        sys.stderr, sys.stdout = err, out
    return dict(failed=ctx.failed if assume else [], exc=exc, checked=ctx.checked, obs=ctx.obs,
                assume=assume)


def main():
    if sys.argv[1] == '--batch':
        cases = json.load(sys.stdin)
        for c in cases:
            print(json.dumps(run_case(c)), flush=True)
        return 0
    case = json.load(open(sys.argv[1]))
    import signal

    def alarm(*a):
        print("REPRODUCED: no result within %d s (does not terminate)" % case.get('timeout', 20))
        os._exit(1)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(case.get('timeout', 20))
    r = run_case(case)
    if r['failed'] or r['exc']:
        print("REPRODUCED: failed=%s exception=%s" % (r['failed'], r['exc']))
        return 1
    print("not reproduced")
    return 0


if __name__ == '__main__':
    sys.exit(main())
