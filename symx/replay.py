"""Replays solver models against the real, unmodified code.  Reads one JSON
request per line on stdin, answers one JSON line on stdout."""
import importlib
import json
import os
import signal
import sys
import warnings


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_one(req):
    from symx import session as S
    mod = importlib.import_module(req['module'])
    sc = next(x for x in S.SCENARIOS[mod.__name__]
              if x.name == req['scenario'])
    s = S.ConcreteSession(req['values'])
    s.params = req['params']
    out = {'failed': [], 'error': None, 'hang': False, 'infeasible': False}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, req.get('timeout', 10))
    try:
        sc.fn(s)
    except S.Stop:
        pass
    except S.Infeasible:
        out['infeasible'] = True
    except Hang:
        out['hang'] = True
    except Exception as e:
        s.failed.append('uncaught:%s' % type(e).__name__)
        import traceback
        out['error'] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out['failed'] = s.failed
    out['observed'] = s.observed
    out['notes'] = s.notes
    out['missing'] = s.missing
    return out


def main():
    warnings.simplefilter('ignore')
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = run_one(req)
        except BaseException as e:                 # noqa
            res = {'failed': [], 'error': 'replay machinery: %r' % e,
                   'hang': False, 'infeasible': False, 'observed': [],
                   'notes': [], 'missing': [], 'machinery': True}
        real.write(json.dumps(res) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
