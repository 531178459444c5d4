#!/usr/bin/env python3-vt
"""run.py PROPERTY : decide one property by symbolic execution of /repo's current source + SMT, replay on the real code."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import threading
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)
REPO = os.environ.get('QMIX_REPO', '/repo')
REAL_PY = os.environ.get('QMIX_PYTHON', '/opt/venv/bin/python')


class Server(object):
    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', QMIX_REPO=REPO, MPLBACKEND='Agg', OMP_NUM_THREADS='2')
        env.pop('PYTHONPATH', None)
        self.err = open(os.devnull, 'w')
        self.p = subprocess.Popen([REAL_PY, os.path.join(HERE, 'replay_server.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, text=True, cwd='/tmp', env=env)
        self.ready = None
        self.lock = threading.Lock()

    def wait(self):
        if self.ready is None:
            l = self.p.stdout.readline()
            self.ready = json.loads(l) if l else dict(ready=False, error='server died')
        return self.ready

    def ask(self, req, timeout=240):
        with self.lock:
            if not self.wait().get('ready'):
                return dict(status='error', error=self.ready.get('error'), fails=[], observed={}, values={})
            t = threading.Timer(timeout, self.p.kill)
            t.start()
            try:
                self.p.stdin.write(json.dumps(req) + '\n')
                self.p.stdin.flush()
                l = self.p.stdout.readline()
            except (BrokenPipeError, ValueError):
                l = ''
            finally:
                t.cancel()
            if not l:
                return dict(status='error', error='replay server ended', fails=[], observed={}, values={})
            return json.loads(l)

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def work(a):
    prop, name, params, seed, budget, q = a
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        from symx import explore, solve
        h = importlib.import_module('checks.' + prop.lower())
        r = explore.Run(h, params, REPO, seed, time.time() + budget)
        try:
            r.explore()
        except Exception as e:
            r.inconclusive.append('engine error: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-900:])
        return dict(case=name, params=params, paths=r.paths, infeasible=r.infeasible, obligations=r.n_obl, normal_form=r.n_trivial,
                    failing=r.failing, inconclusive=r.inconclusive[:5], samples=r.samples, witness=r.witness,
                    functions=sorted('%s:%s' % k for k in r.functions), files=None,
                    defined=sorted(r.defined)[:20], n_defined=len(r.defined), assumed=sorted(r.assumed)[:20],
                    queries=solve.STATS.queries, unsat=solve.STATS.unsat, sat=solve.STATS.sat, unknown=solve.STATS.unknown,
                    cvc5=solve.STATS.cvc5, solver_s=solve.STATS.time, wall=time.time() - t0, tb=getattr(r, 'debug_tb', None))
    except BaseException as e:
        return dict(case=name, params=params, crash=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])


def child(a):
    q = a[-1]
    if not os.environ.get('VERIF_NOISY'):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    r = work(a)
    q.put(r)
    q.close()
    q.join_thread()


def run_cases(jobs, nproc, hard, end, confirmed):
    """one process per case, at most nproc at a time; a case that exceeds its hard limit is ended; once a result holds a
    counterexample that fails on the real code, the other cases get half a minute more"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = list(jobs)
    live = {}
    res = []
    stop = end
    pool = []

    def take(r):
        res.append(r)
        if r.get('failing'):
            t = threading.Thread(target=look, args=(r,))
            t.start()
            pool.append(t)

    def look(r):
        nonlocal stop
        if confirmed(r):
            stop = min(stop, time.time() + 30)
    while todo or live:
        if time.time() > stop:
            if stop == end:
                res += [dict(case=j[1], params=j[2], crash='total time limit') for j in todo]
            todo = []
        while todo and len(live) < nproc:
            j = todo.pop(0)
            p = ctx.Process(target=child, args=(j + (q,),))
            p.start()
            live[j[1]] = (p, time.time(), j)
        try:
            r = q.get(timeout=0.25)
            take(r)
            p = live.pop(r['case'], None)
            if p:
                p[0].join(5)
        except Exception:
            pass
        for n, (p, t, j) in list(live.items()):
            if not p.is_alive():
                try:
                    r = q.get(timeout=0.5)
                    take(r)
                    live.pop(r['case'], None)
                    continue
                except Exception:
                    pass
                if n in live:
                    live.pop(n)
                    res.append(dict(case=n, params=j[2], crash='worker ended with code %s' % p.exitcode))
            elif time.time() - t > hard or time.time() > stop:
                p.kill()
                p.join()
                live.pop(n)
                if time.time() - t > hard or stop == end:
                    res.append(dict(case=n, params=j[2], crash='hard time limit of %ds' % (time.time() - t)))
    for t in pool:
        t.join()
    return res


def close_to(a, b):
    if len(a) != len(b):
        return False
    av = [complex(*x) if isinstance(x, list) else complex(x) for x in a]
    bv = [complex(*x) if isinstance(x, list) else complex(x) for x in b]
    sc = max([abs(x) for x in bv if x == x and abs(x) < 1e300] or [0])
    for x, y in zip(av, bv):
        if x != x and y != y:
            continue
        if not (abs(x - y) <= 1e-5 * sc + 1e-8 or x == y):
            return False
    return True


def main(argv):
    prop = argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    t0 = time.time()
    total = 780 if tier == 'quick' else 5400
    nserv = 3
    servers = [Server() for _ in range(nserv)]
    code = 2
    try:
        code = decide(prop, tier, seed, verbose, t0, total, servers, argv)
    finally:
        for s in servers:
            s.close()
    return code


def decide(prop, tier, seed, verbose, t0, total, servers, argv):
    h = importlib.import_module('checks.' + prop.lower())
    cases = h.cases(tier)
    only = [a[7:] for a in argv if a.startswith('--case=')]
    if only:
        cases = [c for c in cases if c[0] in only]
    budget = getattr(h, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 1800)
    jobs = [(prop, n, p, seed, budget) for n, p in cases]
    known = load_known(prop)

    def confirmed_case(r):
        """does a counterexample of this case fail on the real code, in a way that is not a known finding?"""
        for i, f in enumerate(r['failing']):
            for v in f['candidates'][:4]:
                a = servers[i % len(servers)].ask(dict(prop=prop, params=r['params'], values=v, choices=f['choices'], seed=seed))
                what = f['label'] + ' ' + '; '.join('%s: %s' % tuple(x) for x in a['fails'][:3])
                if a['fails'] and not any(k['case'] == r['case'] and k['match'] in what for k in known):
                    return True
        return False
    res = run_cases(jobs, int(os.environ.get('VERIF_JOBS', '8')), budget + 120, t0 + total - 80, confirmed_case)
    order = {n: i for i, (n, p) in enumerate(cases)}
    res.sort(key=lambda r: order.get(r['case'], 0))
    problems, violations = [], []
    known_hits = []
    validated = mism = 0
    # replay candidates and validation points on the real code, spread over the servers
    reqs = []
    for r in res:
        if r.get('crash'):
            problems.append('%s: %s' % (r['case'], r['crash']))
            continue
        for x in r['inconclusive']:
            problems.append('%s: %s' % (r['case'], x))
        if not r['witness']:
            problems.append('%s: no reachability witness found (vacuous?)' % r['case'])
        for i, f in enumerate(r['failing']):
            for j, v in enumerate(f['candidates'][:8]):
                reqs.append(('fail', r, f, j, dict(prop=prop, params=r['params'], values=v, choices=f['choices'], seed=seed)))
        for s in r['samples']:
            reqs.append(('val', r, s, 0, dict(prop=prop, params=r['params'], values=s['values'], choices=s['choices'], seed=seed)))
    lim = t0 + total
    answers = [None] * len(reqs)
    it = iter(range(len(reqs)))
    lk = threading.Lock()
    done_fail = set()

    def pump(sv):
        while True:
            with lk:
                k = next(it, None)
            if k is None:
                return
            if time.time() > lim:
                answers[k] = dict(status='error', error='time', fails=[], observed={}, values={})
                continue
            kind, r, f, j, rq = reqs[k]
            if kind == 'fail' and id(f) in done_fail:
                answers[k] = dict(status='unused', fails=[], observed={}, values={})
                continue
            a = sv.ask(rq)
            answers[k] = a
            if kind == 'fail' and a['fails']:
                done_fail.add(id(f))
    th = [threading.Thread(target=pump, args=(s,)) for s in servers]
    [t.start() for t in th]
    [t.join() for t in th]
    import_error = None
    for s in servers:
        if s.ready is not None and not s.ready.get('ready'):
            import_error = s.ready.get('error')
    reproduced = set()
    for (kind, r, f, j, rq), a in zip(reqs, answers):
        if a['status'] == 'error':
            problems.append('%s: replay: %s' % (r['case'], a.get('error')))
            continue
        if a['fails']:
            what = '; '.join('%s: %s' % tuple(x) for x in a['fails'][:3])
            if kind == 'fail':
                reproduced.add(id(f))
            violations.append((r['case'], (f['label'] if kind == 'fail' else 'validation run'), what, rq))
        if kind == 'val' and a['status'] == 'ok' and not a['fails']:
            bad = [lab for lab, e in f['expect'].items() if lab in a['observed'] and not close_to(a['observed'][lab], e)]
            if bad:
                mism += 1
                problems.append('%s: encoding differs from the real run in %s at %s: %s vs %s' % (
                    r['case'], bad[:3], str(f['values'])[:300], str(f['expect'][bad[0]])[:200], str(a['observed'][bad[0]])[:200]))
            elif f['expect']:
                validated += 1
    for r in res:
        for f in r.get('failing', []):
            if id(f) not in reproduced:
                problems.append('%s: counterexample for "%s" not reproduced on the real code (%d tries)%s' % (
                    r['case'], f['label'], len(f['candidates']), ' [solver undecided]' if f.get('undecided') else ' goal %s' % f.get('goal')))
    # confirm violations in a fresh interpreter
    fresh = []
    seen = set()
    for v in violations:
        k = (v[0], v[1])
        if k in seen:
            continue
        seen.add(k)
        fresh.append(v)
    confirmed = []
    for case, lab, what, rq in fresh[:12]:
        kf = [k for k in known if k['case'] == case and k['match'] in lab + ' ' + what]
        if kf:
            known_hits.append((kf[0], what))
            continue
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s_%d.json' % (prop, len(confirmed) + 1))
        rq = dict(rq, label=lab, what=what, case=case)
        json.dump(rq, open(path, 'w'), indent=1)
        if not confirmed:
            pr = subprocess.run([REAL_PY, os.path.join(HERE, 'replay_server.py'), path], capture_output=True, text=True, cwd='/tmp',
                                env=dict(os.environ, QMIX_REPO=REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'))
            if pr.returncode != 1:
                problems.append('%s: violation of "%s" did not repeat in a fresh interpreter (%s)' % (case, lab, what))
                continue
        confirmed.append((case, lab, what, path))
    ok = [r for r in res if not r.get('crash')]
    tot = lambda k: sum(r.get(k) or 0 for r in ok)
    cov = dict(
        explanation=getattr(h, 'EXPLANATION', '') + ' Deciding step: z3 verdict on the negated assertion over all values of the symbolic inputs on every '
        'feasible path of the real source; counterexamples are replayed on the real package.',
        cases=[dict(case=r['case'], params=r['params'], paths=r['paths'], infeasible=r['infeasible'], obligations=r['obligations'],
                    queries=r['queries'], solver_s=round(r['solver_s'], 3), wall_s=round(r['wall'], 2),
                    definedness_assumptions=r['n_defined'], assumptions=r['assumed'][:6]) for r in ok],
        functions_encoded=sorted(set(f for r in ok for f in r['functions'])),
        bounds=getattr(h, 'BOUNDS', ''),
        outside=getattr(h, 'OUTSIDE', ''),
        paths=tot('paths'), obligations=tot('obligations'), equal_in_normal_form=tot('normal_form'),
        solver_queries=tot('queries'), unsat=tot('unsat'), sat=tot('sat'), unknown=tot('unknown'), cvc5_cross_checks=tot('cvc5'),
        solver_seconds=round(tot('solver_s'), 3), real_runs_matching_encoding=validated, encoding_mismatches=mism,
        definedness=sorted(set(d for r in ok for d in r['defined']))[:20],
        problems=problems[:20], known_findings=[k['what'] for k, _ in known_hits], violations=[dict(case=c, label=l, what=w) for c, l, w, _ in confirmed])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for k, w in known_hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for p in problems:
        print('PROBLEM', p)
    if verbose:
        for r in ok:
            print('%-40s paths %d (+%d inf) obl %d nf %d queries %d solver %.2fs wall %.1fs samples %d %s' % (
                r['case'], r['paths'], r['infeasible'], r['obligations'], r['normal_form'], r['queries'], r['solver_s'], r['wall'],
                len(r['samples']), 'FAIL %d' % len(r['failing']) if r['failing'] else ''))
            for f in r['failing']:
                print('    failing:', f['label'], f.get('goal', '')[:200])
            if r['failing'] and r.get('tb'):
                print(r['tb'])
    print('%s: %d cases, %d paths, %d obligations, %d queries, %.1fs solver, %d real runs agree, wall %.1fs' % (
        prop, len(res), tot('paths'), tot('obligations'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    if confirmed:
        for case, lab, what, path in confirmed[:6]:
            print('  case %s, %s: %s' % (case, lab, what))
        print('VIOLATION property=%s replay=%s' % (prop, confirmed[0][3]))
        return 1
    if problems:
        print('INCONCLUSIVE property=%s' % prop)
        return 2
    return 0


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE: the check itself failed')
        rc = 2
    sys.exit(rc)
