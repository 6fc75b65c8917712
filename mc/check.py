#!/usr/bin/env python3
"""Decides one property: builds the scenarios against /repo's current tree,
encodes them, asks the SAT solver, validates witnesses and counterexamples by
native replay, writes evidence/<id>.json.

  check.py C01 [--tier quick|thorough] [--only SCEN] [--strict] [-v]
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import build                     # noqa: E402
from plan import PLAN, SCEN, OUTSIDE      # noqa: E402

WORKERS = int(os.environ.get('VP_WORKERS', '8'))


def base(key):
    return key.split('#')[0]


def log(*a):
    print(*a, flush=True)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('status') == 'known']


# ------------------------------------------------------------------ one job
def job_main():
    """runs in its own process: one scenario at one bound"""
    spec = json.loads(sys.stdin.read())
    import resource
    lim = spec.get('mem', 14) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    res = run_job(spec)
    sys.stdout.write('\nJOBRESULT ' + json.dumps(res) + '\n')


def run_job(spec):
    import llir
    import symex
    import replay
    t0 = time.time()
    scen = spec['scen']
    wd = spec['wd']
    res = dict(scen=spec['key'], config=spec['config'], rounds=spec['rounds'], status='ok', queries=[], viol=None, known=[],
               validated=0, samples=[], notes=[])
    deadline = t0 + spec['budget']

    def left():
        return max(1.0, deadline - time.time())

    def solve(name, sy, lits, limit=None):
        st = {}
        t = time.time()
        r, m = sy.g.solve(lits, stats=st, limit=int(min(left(), limit or 1e6)), tmp=wd)
        res['queries'].append(dict(query=name, verdict=r, seconds=round(time.time() - t, 2), vars=st.get('vars'),
                                   clauses=st.get('clauses'), solver=st.get('solver')))
        return r, m
    opts = dict(spec['opts'])
    useq = opts.pop('u_seq', 10)
    try:
        seqb = {}
        while True:
            mod = llir.parse(open(spec['ir']).read())
            sy = symex.Sym(mod, scen, rounds=spec['rounds'], u_seq=useq, seqb=seqb, **opts)
            t = time.time()
            sy.run()
            res['encode_s'] = round(time.time() - t, 2)
            again = decide(spec, res, sy, solve, seqb)
            if not again:
                break
        res['seconds'] = round(time.time() - t0, 2)
    except llir.IRError as e:
        res['status'] = 'unsupported'
        res['notes'].append(str(e))
    except MemoryError:
        res['status'] = 'undecided'
        res['notes'].append('out of memory')
    res['seconds'] = round(time.time() - t0, 2)
    return res


def decide(spec, res, sy, solve, seqb):
    """the queries of one encoding; True: a sequential loop needs a larger bound"""
    import replay
    scen = spec['scen']
    wd = spec['wd']
    res['stats'] = dict(sy.stats, aig=len(sy.g.l), inputs=sy.g.nin, cuts=sy.cuts)
    known = spec.get('known', [])

    def kmatch(kind, id):
        for k in known:
            if k['scen'] in (scen, spec['key']) and k['kind'] == kind and k.get('id', 0) == id:
                return k
        return None
    for name, vs in (('violations', [v for v in sy.viol if v[1] not in ('race', 'hang')]),
                     ('endless loops', [v for v in sy.viol if v[1] == 'hang']),
                     ('data races', [v for v in sy.viol if v[1] == 'race'])):
        if not vs and (name == 'violations' or (sy.race if name == 'data races' else sy.solo)):
            res['queries'].append(dict(query=name, verdict='unsat', seconds=0.0, vars=0, clauses=0,
                                       solver='decided while building the formula'))
        while vs:
            r, m = solve(name, sy, [sy.g.ors([v[0] for v in vs])])
            if r == 'unsat':
                break
            if r != 'sat':
                res['status'] = 'undecided'
                res['notes'].append('%s: solver stopped at its limit' % name)
                break
            ev = sy.g.evaluator(m)
            hit = [v for v in vs if ev(v[0])]
            k = replay.run(sy, spec['ir'], ev, wd, spec.get('keep'), cont=name == 'endless loops')
            if k[0] in BAD:
                kf = kmatch(k[0], k[1])
                if kf:
                    res['known'].append(kf['what'])
                    vs = [v for v in vs if not kmatch(v[1], v[2])]
                    continue
                res['viol'] = report(sy, ev, k, spec, hit)
                return False
            if hit[0][1] == 'hang' and k[0] == 'ok':
                # natively the thread does finish: it needs more iterations than the bound
                for l, key, b in sy.cutlits:
                    if ev(l):
                        if b >= 40:
                            res['status'] = 'undecided'
                            res['notes'].append('loop bound of a thread running alone not reached')
                            return False
                        seqb[key] = b + 4
                        seqb[(key[0], None)] = seqb.get((key[0], None), 2) + 2
                res['bounds_raised'] = len(seqb)
                return True
            if hit[0][1] == 'unwind':
                for l, key, b in sy.cutlits:
                    if ev(l):
                        if b >= 48:
                            res['status'] = 'undecided'
                            res['notes'].append('loop bound of sequential code not reached')
                            return False
                        seqb[key] = b * 2
                res['bounds_raised'] = len(seqb)
                return True
            res['status'] = 'error'
            if os.environ.get('VP_DEBUG'):
                open(os.environ['VP_DEBUG'], 'w').write('\n'.join(k[4]))
            res['notes'].append('counterexample does not reproduce natively: model %s, native %s' % (
                [v[1:] for v in hit][:3], k[:4]))
            res['trace'] = k[4][-60:]
            return False
    if res['status'] == 'ok':
        if not sy.nt:
            r, m = solve('witness: some input', sy, [sy.asm], 300)
        elif spec.get('nofinish'):
            r, m = solve('witness: some schedule', sy, [sy.asm], 300)
        else:
            r, m = solve('witness: all threads finish', sy, [sy.alldone], 300)
        if r == 'sat':
            ev = sy.g.evaluator(m)
            k = replay.run(sy, spec['ir'], ev, wd)
            if k[0] != 'ok' or not k[3]:
                res['status'] = 'error'
                res['notes'].append('native replay disagrees with the encoding: %s' % (k[:4],))
                return False
            else:
                res['validated'] += 1
                if sy.weak and not spec.get('stale_done'):
                    spec['stale_done'] = True
                    r, m = solve('witness: all threads finish after a delayed store', sy, [sy.g.and_(sy.alldone, sy.stale)], 300)
                    if r == 'sat':
                        k = replay.run(sy, spec['ir'], sy.g.evaluator(m), wd)
                        if k[0] != 'ok' or not k[3]:
                            res['status'] = 'error'
                            res['notes'].append('native replay disagrees with the encoding: %s' % (k[:4],))
                            return False
                        res['validated'] += 1
                    res['weak'] = r
                res['samples'] = [dict(scenario=scen, schedule=k[4][:40])]
        elif r == 'unsat':
            res['vacuous'] = 'no execution finishes within the bounds'
        else:
            res['status'] = 'undecided'
    todo = dict(sy.asserts) if spec.get('reach') else {}
    while todo:
        r, m = solve('witness: some of assertions %s reached' % sorted(todo), sy, [sy.g.ors(list(todo.values()))], 300)
        if r != 'sat':
            if r != 'unsat':
                res['status'] = 'undecided'
            break
        ev = sy.g.evaluator(m)
        for i in [i for i, l in todo.items() if ev(l)]:
            del todo[i]
    if not spec.get('reach'):
        return False
    res['reached'] = [i for i in sorted(sy.asserts) if i not in todo]
    res['unreached'] = sorted(todo)
    res['asserts'] = sorted(sy.asserts)
    return False


BAD = ('assert', 'panic', 'uaf', 'wild', 'race', 'deadlock', 'hang', 'waker', 'alloc', 'ub')


def report(sy, ev, k, spec, hit=()):
    return dict(scen=spec['key'], config=spec['config'], rounds=spec['rounds'], kind=k[0], id=k[1], text=k[2],
                model=[list(map(str, v[1:])) for v in hit][:4], trace=k[4])


# ------------------------------------------------------------------- driver
def functions(ll, scen):
    """functions of the crate under test reachable from the scenario's entry points"""
    text = open(ll).read()
    calls = {}
    cur = None
    for line in text.split('\n'):
        if line.startswith('define'):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', line)
            cur = m.group(1)
            calls[cur] = set()
        elif line == '}':
            cur = None
        elif cur:
            calls[cur].update(re.findall(r'@("[^"]+"|[\w.$]+)', line))
    st = [n for n in calls if n.startswith(scen + '__')]
    seen = set(st)
    while st:
        for c in calls.get(st.pop(), ()):
            if c in calls and c not in seen:
                seen.add(c)
                st.append(c)
    return seen


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(['c++filt', '-s', 'rust'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return [re.sub(r'\[[0-9a-f]{8,}\]', '', x) for x in p.stdout.split('\n') if x]
    except OSError:
        return list(names)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    strict = verbose = False
    rounds = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--only':
            only = a.pop(0)
        elif x == '--strict':
            strict = True
        elif x == '-v':
            verbose = True
        elif x == '--rounds':
            rounds = [int(y) for y in a.pop(0).split(',')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = float(os.environ.get('VP_BUDGET', '780' if tier == 'quick' else '7200'))
    jobs = []
    for name in (PLAN[prop] if prop != 'ALL' else list(SCEN)):
        s = SCEN[name]
        if only and not re.fullmatch(only, name):
            continue
        if s.get('tier') == 'thorough' and tier == 'quick':
            continue
        if rounds:
            s = dict(s, rounds=rounds, rounds_thorough=rounds)
        jobs.append((name, s))
    configs = sorted(set(s.get('config', 'std') for _, s in jobs))
    wdroot = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        return drive(prop, tier, seed, t0, total, jobs, configs, wdroot, strict, verbose)
    finally:
        shutil.rmtree(wdroot, ignore_errors=True)


def drive(prop, tier, seed, t0, total, jobs, configs, wdroot, strict, verbose):
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            lls = dict(zip(configs, ex.map(lambda c: build.cargo(c, os.path.join(wdroot, 'll-' + c)), configs)))
    except build.BuildError as e:
        log('error: the harness does not build against the current tree')
        log(str(e))
        return 2
    log('%s: built %s in %.1f s' % (prop, ', '.join(configs), time.time() - t0))
    known = [k for k in known_findings() if k['property'] == prop]
    results = []
    viols = []
    specs = []
    for name, s in jobs:
        rs = s.get('rounds_thorough' if tier == 'thorough' else 'rounds', s.get('rounds', [3]))
        for r in rs:
            specs.append((name, s, r))
    # cheap bounds first, so that a shallow violation is found at once
    specs.sort(key=lambda x: (x[1].get('cost', 1) * 4 ** x[2]))
    irs = {}
    stop = []

    def mkir(name, cfg):
        wd = os.path.join(wdroot, cfg)
        os.makedirs(wd, exist_ok=True)
        return build.scenario_ir(lls[cfg], base(name), wd)

    def one(x):
        name, s, r = x
        cfg = s.get('config', 'std')
        if stop:
            return None
        wd = tempfile.mkdtemp(dir=wdroot)
        left = total - (time.time() - t0)
        if left < 5:
            return dict(scen=name, config=cfg, rounds=r, status='undecided', queries=[], viol=None, known=[],
                        validated=0, samples=[], notes=['no time left'])
        ir = os.path.join(wd, base(name) + '.ll')
        shutil.copy(irs[(base(name), cfg)], ir)
        spec = dict(scen=base(name), key=name, config=cfg, rounds=r, opts=s.get('opts', {}), ir=ir, wd=wd, known=known,
                    budget=min(left, s.get('budget', 600 if tier == 'quick' else 3600)), nofinish=s.get('nofinish', False),
                    reach=strict or tier == 'thorough',
                    keep=os.path.join(wd, 'keep'))
        env = dict(os.environ, PYTHONHASHSEED='0')
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--job'], stdin=subprocess.PIPE, env=env,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            o, e = p.communicate(json.dumps(spec), timeout=spec['budget'] + 30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            o, e = '', 'time limit'
        m = re.search(r'^JOBRESULT (.*)$', o, re.M)
        if m:
            res = json.loads(m.group(1))
        else:
            res = dict(scen=name, config=cfg, rounds=r, status='error' if e != 'time limit' else 'undecided', queries=[],
                       viol=None, known=[], validated=0, samples=[], notes=[e[-1500:]])
        if res['viol']:
            if not os.environ.get('VP_KEEPGOING'):
                stop.append(1)
            k = os.path.join(wd, 'keep', 'replay.exe')
            if os.path.exists(k):
                res['exe'] = k
        return res
    try:
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            pairs = sorted(set((base(n), s.get('config', 'std')) for n, s, _ in specs))
            for pr, ir in zip(pairs, ex.map(lambda p: mkir(*p), pairs)):
                irs[pr] = ir
    except build.BuildError as e:
        log('error: ' + str(e))
        return 2
    ex = cf.ThreadPoolExecutor(WORKERS)
    futs = [ex.submit(one, x) for x in specs]
    for f in cf.as_completed(futs):
        r = f.result()
        if r is None:
            continue
        results.append(r)
        tag = 'VIOLATED' if r['viol'] else r['status']
        if verbose or tag != 'ok':
            log('  %-26s %-6s R=%d %-10s encode %ss, total %ss  %s %s' % (
                r['scen'], r['config'], r['rounds'], tag, r.get('encode_s'), r.get('seconds'),
                ' '.join('%s=%s/%ss' % (q['query'][:9], q['verdict'], q['seconds']) for q in r['queries'][:4]) if verbose else '',
                '; '.join(r['notes'])[:600]))
        if r['viol']:
            viols.append(r)
    # reach over all bounds of a scenario
    reach = {}
    for r in results:
        d = reach.setdefault(r['scen'], dict(all=set(), hit=set(), fin=False, ok=False))
        d['all'].update(r.get('asserts', ()))
        d['hit'].update(r.get('reached', ()))
        d['ok'] |= r['status'] == 'ok'
        if r['status'] == 'ok' and not r.get('vacuous'):
            d['fin'] = True
    vac = []
    for n, d in reach.items():
        if viols:
            break
        if d['ok'] and not d['fin']:
            vac.append('%s: no execution of all threads finishes within the rounds' % n)
        if d['ok'] and d['all'] - d['hit']:
            vac.append('%s: assertions %s never reached' % (n, sorted(d['all'] - d['hit'])))
    fns = set()
    if not viols:
        for n, s in jobs:
            fns |= functions(lls[s.get('config', 'std')], base(n))
    fl = sorted(set(x for x in demangle(sorted(fns)) if 'thingbuf' in x))
    qs = [dict(q, scenario=r['scen'], config=r['config'], rounds=r['rounds']) for r in results for q in r['queries']]
    dec = [q for q in qs if q['verdict'] in ('sat', 'unsat')]
    st = [r['stats'] for r in results if r.get('stats')]
    samples = [x for r in results for x in r['samples']][:2]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=sum(s['points'] for s in st),
                  transitions=sum(s['instructions'] for s in st),
                  traces_validated_against_impl=sum(r['validated'] for r in results),
                  samples=samples,
                  counting='states: (program point, scheduling round) pairs encoded; transitions: instruction '
                           'instances encoded symbolically; each stands for all schedules and inputs within the bounds',
                  functions_encoded=fl,
                  scenarios=[dict(scenario=r['scen'], config=r['config'], rounds=r['rounds'], status=r['status'],
                                  options=SCEN[r['scen']].get('opts', {}), stats=r.get('stats'),
                                  notes=r['notes'], asserts_reached=r.get('reached'), encode_s=r.get('encode_s'),
                                  total_s=r.get('seconds'), bound=SCEN[r['scen']].get('doc', '')) for r in results],
                  queries_discharged=len(dec),
                  queries_undecided=len(qs) - len(dec),
                  queries=[q for q in qs if not q['query'].startswith('witness: some')],
                  solver_seconds=round(sum(q['seconds'] for q in qs), 1),
                  vacuity=vac,
                  outside_bounds=OUTSIDE),
              assumptions=OUTSIDE, wall_s=round(time.time() - t0, 1), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for w in sorted(set(w for r in results for w in r['known'])):
        log('KNOWN-FINDING: property=%s %s' % (prop, w))
    n = {}
    for r in results:
        n[r['status']] = n.get(r['status'], 0) + 1
    log('%s: %d runs %s, %d queries, %d traces replayed natively, %.1f s' % (
        prop, len(results), n, len(qs), ev['coverage']['traces_validated_against_impl'], time.time() - t0))
    for v in vac:
        log('  vacuity: ' + v)
    if viols:
        r = viols[0]
        v = r['viol']
        rd = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.txt' % (prop, v['scen'].replace('#', '-')))
        with open(path, 'w') as f:
            f.write('property %s, scenario %s (%s, %d rounds)\n' % (prop, v['scen'], v['config'], v['rounds']))
            f.write('native replay: %s %s %s\n' % (v['kind'], v['id'], v['text']))
            f.write('model: %s\n' % v['model'])
            f.write(SCEN[v['scen']].get('doc', '') + '\n\nschedule (thread, action, values, instruction):\n')
            f.write('\n'.join(v['trace']) + '\n')
        if r.get('exe'):
            shutil.copy(r['exe'], path[:-4] + '.exe')
        log('  %s: %s (assertion %s) %s' % (v['scen'], v['kind'], v['id'], v['text']))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    bad = [r for r in results if r['status'] != 'ok']
    if bad:
        log('  %d runs did not decide their scenario (see the evidence file): they support nothing' % len(bad))
    if bad and strict:
        return 2
    if not any(r['status'] == 'ok' for r in results):
        return 2
    if vac:
        return 2 if strict else 0
    if strict and any(r['status'] != 'ok' for r in results):
        return 2
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--job':
        job_main()
        sys.exit(0)
    sys.exit(main())
