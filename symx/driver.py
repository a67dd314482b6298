"""Explores the scenarios of one property with a pool of worker processes,
replays counterexamples and sampled paths, writes the evidence file."""
import importlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'


# -- worker -----------------------------------------------------------------

def run_path(core, Sess, sc, params, prefix, stats):
    eng = core.Engine(prefix, stats)
    core.E = eng
    s = Sess(eng)
    s.params = params
    info = {'timeout': False, 'inconclusive': None, 'done': False}

    def on_alarm(*_):
        eng.aborted = core.PathTimeout('path timed out')
        raise eng.aborted
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, sc.timeout)
    try:
        try:
            sc.fn(s)
            if eng.aborted is not None:
                raise eng.aborted
            info['done'] = True
        except core.Steer:
            raise
        except Exception as e:
            if eng.aborted is not None:
                raise eng.aborted
            stats.checks += 1
            info['tb'] = traceback.format_exc()[-2500:]
            eng.cex.append(('uncaught:%s' % type(e).__name__,
                            eng.extract_path()))
    except core.PathTimeout:
        info['timeout'] = True
    except core.Inconclusive as e:
        info['inconclusive'] = str(e)
        info['tb'] = traceback.format_exc()[-2500:]
    except (core.PathInfeasible, core.PathAbort):
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    stats.paths += 1
    if info['timeout']:
        try:
            eng.aborted = None
            info['values'] = eng.extract_path()
        except BaseException:                     # noqa
            info['inconclusive'] = 'path timed out before a model was known'
    return eng, info


def worker(conn_r, conn_w, scs):
    from . import core, values as V, rewrite
    from .session import make_sym_session
    Sess = make_sym_session()
    rd = os.fdopen(conn_r, 'r')
    wr = os.fdopen(conn_w, 'w')
    for line in rd:
        task = json.loads(line)
        if task is None:
            break
        sc = scs[task['scenario']]
        stats = core.Stats()
        stack = [tuple(p) for p in task['prefixes']]
        t_end = time.time() + task['slice']
        cexs = []
        incon = []
        hangs = []
        samples = []
        want = task['want_samples']
        n = 0
        while stack:
            prefix = stack.pop()
            eng, info = run_path(core, Sess, sc, task['params'], prefix,
                                 stats)
            n += 1
            stack.extend(eng.pending)
            for label, vals in eng.cex:
                cexs.append([label, vals, info.get('tb')])
            if info['inconclusive']:
                incon.append([info['inconclusive'], info.get('tb')])
            elif info['timeout']:
                hangs.append(info['values'])
            elif info['done'] and len(samples) < want:
                try:
                    core.E.aborted = None
                    m = eng.get_model()
                    samples.append({
                        'values': eng.extract(m),
                        'observed': [[lb, V.model_value(v, m)]
                                     for lb, v in eng.observed],
                        'decisions': len(eng.trace)})
                except core.Steer:
                    pass
            if cexs or len(incon) > 3 or hangs or time.time() > t_end:
                break
        wr.write(json.dumps({
            'scenario': task['scenario'], 'stats': stats.as_dict(),
            'left': stack, 'cex': cexs, 'incon': incon, 'hangs': hangs,
            'samples': samples, 'hits': sorted(rewrite.HITS)}) + '\n')
        wr.flush()


# -- replay server ----------------------------------------------------------

class Replayer:
    def __init__(self, modname):
        self.mod = modname
        self.p = None

    def start(self):
        env = dict(os.environ)
        env['PYTHONPATH'] = REPO + os.pathsep + VERIF
        env['PYTHONHASHSEED'] = '0'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        self.p = subprocess.Popen(
            [VENV_PY, '-m', 'symx.replay'], cwd=VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True)

    def run(self, scenario, params, values, timeout=10):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps({
            'module': self.mod, 'scenario': scenario, 'params': params,
            'values': values, 'timeout': timeout}) + '\n')
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout + 20)
        line = self.p.stdout.readline() if r else ''
        if not line:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {'failed': [], 'error': None, 'hang': True,
                    'infeasible': False, 'observed': [], 'notes': [],
                    'missing': []}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()


# -- known findings ---------------------------------------------------------

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            m = re.match(r'known: property=(\S+) scenario=(\S+) label=(\S+)'
                         r'(?: where=(\{.*?\}))? :: (.*)$', line)
            if m and m.group(1) == prop:
                out.append({'scenario': m.group(2), 'label': m.group(3),
                            'where': json.loads(m.group(4) or '{}'),
                            'text': m.group(5)})
    return out


def match_known(known, scenario, label, values):
    for k in known:
        if k['scenario'] == scenario and k['label'] == label and all(
                values['vars'].get(n) == v for n, v in k['where'].items()):
            return k
    return None


# -- main -------------------------------------------------------------------

def tier_params(sc, tier):
    p = sc.params
    if 'quick' in p or 'thorough' in p:
        return p.get(tier, p.get('quick'))
    return p


def main(prop, modname, tier, seed, budget, jobs, only=None, verbose=False):
    t_start = time.time()
    from . import rewrite
    rewrite.install({
        'hiku': (os.path.join(REPO, 'hiku'), True),
        'harness': (os.path.join(VERIF, 'harness'), False)})
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module(modname)
    from .session import SCENARIOS
    scs = {}
    for sc in SCENARIOS[mod.__name__]:
        if only and sc.name not in only:
            continue
        if sc.tier == 'quick' or tier == 'thorough':
            scs[sc.name] = sc
    import_s = time.time() - t_start
    known = load_known(prop)

    workers = []
    for _ in range(jobs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for w in workers:
                os.close(w['w'])
                os.close(w['r'])
            rc = 0
            try:
                worker(r1, w2, scs)
            except BaseException:                 # noqa
                traceback.print_exc()
                rc = 1
            finally:
                os._exit(rc)
        os.close(r1)
        os.close(w2)
        workers.append({'pid': pid, 'w': w1, 'r': r2, 'busy': None,
                        'buf': b''})

    queue = [(name, [()]) for name in scs]
    agg = {name: {'covers': {}, 'labels': {}, 'solver_s': 0.0}
           for name in scs}
    hits = set()
    samples = {name: [] for name in scs}
    incon = []
    nonrepro = []
    violations = []
    knownhits = {}
    hung = []
    rep = Replayer(modname)
    max_samples = 40 if tier == 'quick' else 150
    exhausted = True
    dead = False

    def send(w, task):
        os.write(w['w'], (json.dumps(task) + '\n').encode())

    def handle(res):
        name = res['scenario']
        sc = scs[name]
        a = agg[name]
        for k, v in res['stats'].items():
            if k in ('covers', 'labels'):
                for lb, c in v.items():
                    a[k][lb] = a[k].get(lb, 0) + c
            else:
                a[k] = a.get(k, 0) + v
        hits.update(res['hits'])
        samples[name].extend(res['samples'])
        incon.extend([name, m, tb] for m, tb in res['incon'])
        params = tier_params(sc, tier)
        for label, vals, tb in res['cex']:
            if len(nonrepro) > 20:
                break
            r = rep.run(name, params, vals)
            if label in r['failed'] or r['failed'] or r['hang']:
                lb = label if label in r['failed'] else (
                    r['failed'] or ['no result (hang)'])[0]
                k = match_known(known, name, lb, vals)
                if k is not None:
                    knownhits.setdefault(k['text'], 0)
                    knownhits[k['text']] += 1
                    continue
                violations.append({
                    'scenario': name, 'label': lb, 'params': params,
                    'values': vals, 'replay': r, 'symbolic_label': label})
            else:
                nonrepro.append([name, label, vals, r, tb])
        for vals in res['hangs']:
            r = rep.run(name, params, vals, timeout=20)
            if r['hang'] or r['failed']:
                violations.append({
                    'scenario': name,
                    'label': (r['failed'] or ['no result (hang)'])[0],
                    'params': params, 'values': vals, 'replay': r,
                    'symbolic_label': 'timeout'})
            else:
                hung.append(name)
                incon.append([name, 'a path timed out', None])
        if res['left']:
            left = res['left']
            # split so that idle workers get a share, oldest first
            parts = min(len(left), 3)
            for i in range(parts):
                queue.append((name, left[i::parts]))

    while not violations:
        idle = [w for w in workers if w['busy'] is None]
        nbusy = len(workers) - len(idle)
        while queue and idle:
            # fresh scenarios first, then the longest backlog
            queue.sort(key=lambda q: len(q[1]))
            name, prefixes = queue.pop()
            w = idle.pop()
            nbusy += 1
            slack = len(queue) + nbusy >= len(workers) * 2
            w['busy'] = name
            send(w, {'scenario': name, 'prefixes': prefixes,
                     'params': tier_params(scs[name], tier),
                     'slice': 2.0 if slack else 0.25,
                     'want_samples': max(0, min(
                         6, max_samples - len(samples[name])))})
        if not nbusy:
            break
        if time.time() - t_start > budget:
            exhausted = False
            break
        r, _, _ = select.select([w['r'] for w in workers if w['busy']], [],
                                [], 1.0)
        for w in workers:
            if w['r'] in r:
                data = os.read(w['r'], 1 << 20)
                if not data:
                    dead = True
                    w['busy'] = None
                    incon.append([w['busy'], 'a worker process died', None])
                    workers.remove(w)
                    break
                w['buf'] += data
                if w['buf'].endswith(b'\n'):
                    res = json.loads(w['buf'])
                    w['buf'] = b''
                    w['busy'] = None
                    handle(res)
        if dead or len(incon) > 40:
            exhausted = False
            break
    for w in workers:
        try:
            os.kill(w['pid'], signal.SIGKILL)
            os.waitpid(w['pid'], 0)
        except OSError:
            pass

    # validate sampled paths against the real code
    validated = 0
    mismatches = []
    if not violations:
        for name, ss in samples.items():
            params = tier_params(scs[name], tier)
            for smp in ss[:max_samples]:
                r = rep.run(name, params, smp['values'])
                if r['failed'] or r['hang']:
                    lb = (r['failed'] or ['no result (hang)'])[0]
                    k = match_known(known, name, lb, smp['values'])
                    if k is None:
                        violations.append({
                            'scenario': name, 'label': lb, 'params': params,
                            'values': smp['values'], 'replay': r,
                            'symbolic_label': 'trace validation'})
                        break
                elif json.loads(json.dumps(smp['observed'])) != r['observed']:
                    mismatches.append([name, smp, r])
                else:
                    validated += 1
    rep.close()

    # vacuity
    vac = []
    if not violations and exhausted and not incon:
        for name, sc in scs.items():
            if not agg[name].get('checks'):
                vac.append('%s: no assertion was reached' % name)
            for c in sc.needs:
                if not agg[name]['covers'].get(c):
                    vac.append('%s: "%s" was not reached' % (name, c))

    wall = time.time() - t_start
    tot = {}
    for a in agg.values():
        for k, v in a.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    all_labels = {}
    for n, a in agg.items():
        for lb, c in a['labels'].items():
            all_labels['%s/%s' % (n, lb)] = c
    smp = []
    for name, ss in samples.items():
        for x in ss[:2]:
            smp.append({'scenario': name, 'values': x['values'],
                        'observed': x['observed'][:8]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'wall_s': round(wall, 2),
        'violations': len(violations),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': smp[:12],
            'exhaustive': bool(exhausted and not incon and not violations),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'functions_encoded': sorted(hits),
            'queries_discharged': tot.get('queries', 0),
            'queries_sat': tot.get('sat', 0),
            'queries_unsat': tot.get('unsat', 0),
            'solver_s': round(tot.get('solver_s', 0.0), 2),
            'assertions': all_labels,
            'assertions_decided_by_solver': tot.get('checks_symbolic', 0),
            'assertions_constant_on_path': tot.get('checks_concrete', 0),
            'concretised_values': tot.get('concretised', 0),
            'scenarios': {n: {'paths': a.get('paths', 0),
                              'queries': a.get('queries', 0),
                              'covers': a['covers'],
                              'params': tier_params(scs[n], tier)}
                          for n, a in agg.items()},
            'known_findings_seen': knownhits,
        },
    }
    ev['coverage']['inconclusive'] = (
        [str(x[:2])[:300] for x in incon[:10]] +
        ['counterexample of %s [%s] does not reproduce' % (n[0], n[1])
         for n in nonrepro[:10]] +
        ['trace of %s differs' % m[0] for m in mismatches[:10]])
    if nonrepro or mismatches:
        ev['coverage']['exhaustive'] = False
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))

    for k in known:
        if k['text'] in knownhits or k['scenario'] in scs:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    summ = ('%s: %d paths, %d decisions, %d queries (%.1fs solver), %d '
            'assertions, %d traces validated, import %.1fs, wall %.1fs'
            % (prop, tot.get('paths', 0), tot.get('decisions', 0),
               tot.get('queries', 0), tot.get('solver_s', 0),
               tot.get('checks', 0), validated, import_s, wall))
    print(summ)
    if verbose:
        for n, a in agg.items():
            print('  ', n, {k: v for k, v in a.items()
                            if k not in ('labels',)})
    if violations:
        v = violations[0]
        path = os.path.join(VERIF, 'evidence', 'replay_%s.json' % prop)
        v['module'] = modname
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('scenario %s: %s' % (v['scenario'], v['label']))
        if v['replay'].get('notes'):
            print('  detail: %s' % v['replay']['notes'][0][:600])
        if v['replay'].get('error'):
            print(v['replay']['error'][-800:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    bad = []
    if not exhausted:
        bad.append('exploration stopped before it was complete')
    for n, m, tb in incon[:3]:
        bad.append('%s: %s\n%s' % (n, m, tb or ''))
    for n, lb, vals, r, tb in nonrepro[:3]:
        bad.append('counterexample of %s [%s] does not reproduce: %s -> %s\n%s'
                   % (n, lb, json.dumps(vals)[:1500], json.dumps(r)[:800],
                      tb or ''))
    for n, s, r in mismatches[:3]:
        bad.append('trace of %s differs between encoding and code: %s vs %s '
                   '(values %s) error %s' % (
                       n, json.dumps(s['observed'])[:800],
                       json.dumps(r['observed'])[:800],
                       json.dumps(s['values'])[:800], r.get('error')))
    for b in bad + vac:
        print('INCONCLUSIVE: ' + b)
    if bad and (os.environ.get('SYMX_STRICT') or not tot.get('checks')):
        return 3
    return 3 if vac else 0


COMMON = [
    'string hashes and tuple hashes do not collide (hashes of integers are '
    'modelled exactly)',
    'symbolic sets iterate in insertion order',
    'stubs and assumptions of the scenario as stated in DESIGN.md',
]
