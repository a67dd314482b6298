#!/opt/venv/bin/python
"""run_check.py <ID> [--tier quick|thorough] [--only scenario] [-v]
   run_check.py --replay evidence/replay_<ID>.json"""
import argparse
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only', action='append')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv('/opt/venv/bin/python',
                 ['/opt/venv/bin/python'] + sys.argv)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    if a.replay:
        v = json.load(open(a.replay))
        from symx.driver import Replayer
        r = Replayer(v['module'])
        print(json.dumps(r.run(v['scenario'], v['params'], v['values']),
                         indent=1))
        r.close()
        return 0
    # z3 comes from the tooling venv; appended so that hiku's own
    # dependencies win
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.setrecursionlimit(4000)
    tier = 'thorough' if a.thorough else a.tier
    files = glob.glob(os.path.join(HERE, 'harness', a.id.lower() + '_*.py'))
    if len(files) != 1:
        print('no harness for', a.id)
        return 2
    mod = 'harness.' + os.path.basename(files[0])[:-3]
    from symx import driver
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    budget = a.budget or float(os.environ.get('SYMX_BUDGET') or (
        780 if tier == 'quick' else 5400))
    return driver.main(a.id, mod, tier,
                       int(os.environ.get('VERIF_SEED', '1') or 1),
                       budget, jobs, only=a.only, verbose=a.v)


if __name__ == '__main__':
    sys.exit(main())
