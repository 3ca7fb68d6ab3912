#!/usr/bin/env python3-vt
"""Decide one property on /repo's current working tree.   check.py <property-id> [quick|thorough]"""
import json, os, shutil, signal, subprocess, sys, tempfile, time, importlib, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from cv import cast, build, props          # noqa: E402

T0 = time.time()
_G = {}


def specs_of(pid, tier='thorough'):
    out = []
    for modname, names in props.PROPS[pid]['specs']:
        m = importlib.import_module(modname)
        for i, s in enumerate(m.SPECS):
            if (names is None or s.name in names or (names and s.fn in names if hasattr(s, 'fn') else False)) and (tier == 'thorough' or not getattr(s, 'slow', False)):
                out.append((modname, i))
    return out


def run_spec(job):
    modname, i = job
    s = importlib.import_module(modname).SPECS[i]
    if hasattr(s, 'exec_time'):
        s.exec_time = min(s.exec_time, 250)
    r = s.run(*_G['src'], **({'kinds': _G['kinds']} if _G.get('kinds') and hasattr(s, 'fn') else {}))
    obl = [dict(name=o[0], kind=o[1], line=o[2], ok=bool(o[3]), t=round(o[4], 3), by=o[6] if len(o) > 6 else 'z3',
                goal=None if o[3] else str(o[5].goal)[:3000], asm=None if o[3] else str(o[5].asm)[:3000]) for o in r.obls]
    return dict(name=s.name, fn=getattr(s, 'fn', s.name), obl=obl, error=r.error, funcs=r.funcs, ext=r.ext, time=r.time, loops=getattr(r, 'nloops', 0),
                bounded=getattr(s, 'bounded', None), file=getattr(s, 'file', None))


def prove(pid, jobs, limit):
    res = []
    ctx = mp.get_context('fork')
    procs = []
    todo = list(jobs)
    q = ctx.Queue()

    def work(job):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        try:
            r = run_spec(job)
        except BaseException as e:
            import traceback
            s = importlib.import_module(job[0]).SPECS[job[1]]
            r = dict(name=s.name, fn=getattr(s, 'fn', s.name), obl=[], error='%s: %s' % (type(e).__name__, str(e)[:300]), funcs=[], ext=[], time=0,
                     loops=0, bounded=None, file=None, tb=traceback.format_exc()[-1500:])
        q.put((job, r))
    running = {}
    t_end = time.time() + limit
    done = set()
    while len(done) < len(jobs):
        while todo and len(running) < 7:
            j = todo.pop(0)
            p = ctx.Process(target=work, args=(j,))
            p.start()
            running[j] = p
        try:
            job, r = q.get(timeout=2)
            done.add(job)
            res.append(r)
            running.pop(job).join()
            continue
        except Exception:
            pass
        for j, p in list(running.items()):
            if not p.is_alive():
                time.sleep(0.2)
                try:
                    while True:
                        job, r = q.get_nowait()
                        done.add(job); res.append(r); running.pop(job, None)
                except Exception:
                    pass
                if j in running:
                    running.pop(j)
                    done.add(j)
                    s = importlib.import_module(j[0]).SPECS[j[1]]
                    res.append(dict(name=s.name, fn=getattr(s, 'fn', s.name), obl=[], error='verifier process died', funcs=[], ext=[], time=0, loops=0, bounded=None, file=None))
        if time.time() > t_end:
            for j, p in running.items():
                p.kill()
            for j in list(running) + todo:
                s = importlib.import_module(j[0]).SPECS[j[1]]
                res.append(dict(name=s.name, fn=getattr(s, 'fn', s.name), obl=[], error='time limit of the check reached', funcs=[], ext=[], time=0, loops=0, bounded=None, file=None))
            break
    return sorted(res, key=lambda r: r['name'])


def start_conc(pid, lib, tmp, seed, tier, budget, tag=''):
    out = os.path.join(tmp, 'conc%s.json' % tag)
    e = build.env(lib)
    e['VERIF_SEED'] = str(seed)
    e['VERIF_TIER'] = tier
    e['NMT_SCRATCH'] = tmp
    e.setdefault('OMP_NUM_THREADS', '4')
    log = open(out + '.log', 'w')
    p = subprocess.Popen([build.PY, '-m', 'conc.run', pid, out, str(budget)], cwd=tmp, env=e, stdout=log, stderr=log, start_new_session=True)
    return p, out, time.time() + budget * 2 + 120


def end_conc(p, out, t_end):
    try:
        p.wait(max(1, t_end - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return {'evaluations': 0, 'distinct': 0, 'checks': {}, 'samples': [], 'known': [], 'wall': 0,
                'failures': [{'check': 'harness', 'detail': 'the harness did not finish in time', 'inputs': cur(out), 'harness_error': True}]}
    if p.returncode != 0 or not os.path.exists(out):
        log = open(out + '.log').read()[-2500:]
        sig = p.returncode < 0 or p.returncode in (139, 134)
        return {'evaluations': 0, 'distinct': 0, 'checks': {}, 'samples': [], 'known': [], 'wall': 0,
                'failures': [{'check': 'the library crashed (signal %d)' % -p.returncode if sig else 'harness',
                              'detail': log, 'inputs': cur(out), 'harness_error': not sig}]}
    return json.load(open(out))


def cur(out):
    try:
        return json.load(open(out + '.cur'))
    except Exception:
        return None


def load_known():
    ks = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = json.loads(l[6:])
                ks.append(d)
    return ks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='nmtv_%s_' % pid)
    try:
        sys.exit(decide(pid, tier, seed, P, evd, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tier, seed, P, evd, tmp):
    thorough = tier == 'thorough'
    lib = os.path.join(tmp, 'lib')
    conc = None
    builderr = None
    try:
        build.build(lib)
    except build.BuildError as e:
        print('BUILD ERROR', e)
        return 2
    if P.get('conc', True):
        conc = start_conc(pid, lib, tmp, seed, tier, (P.get('budget_thorough', 300) if thorough else P.get('budget', 60)))
    _G['src'] = cast.load_all()
    _G['kinds'] = P.get('kinds')
    jobs = specs_of(pid, tier)
    jobs.sort(key=lambda j: -getattr(importlib.import_module(j[0]).SPECS[j[1]], 'cost', 1))
    if P.get('order'):
        jobs.sort(key=P['order'])
    res = prove(pid, jobs, P.get('limit', 420) if not thorough else 2400)
    cres = end_conc(*conc) if conc else None
    # ------------------------------------------------------------ judge
    failed = []
    nobl = ndis = 0
    for r in res:
        nobl += len(r['obl'])
        ndis += sum(o['ok'] for o in r['obl'])
        if r['error']:
            nobl += 1
            failed.append((r['name'], 'contract of %s' % r['name'], r['error'], r))
        elif not r['obl'] and not P.get('kinds'):
            nobl += 1
            failed.append((r['name'], 'contract of %s' % r['name'], 'no obligation was generated', r))
        for o in r['obl']:
            if not o['ok']:
                failed.append((r['name'], o['name'], 'line %s' % o['line'], dict(goal=o['goal'], assumptions=o['asm'], kind=o['kind'])))
    cfail = [f for f in (cres or {}).get('failures', []) if not f.get('harness_error')]
    herr = [f for f in (cres or {}).get('failures', []) if f.get('harness_error')]
    if failed and not cfail and P.get('conc', True):
        # search for an input on which the undischarged obligation fails
        n = 0
        while n < 3 and time.time() - T0 < 420 and not cfail:
            n += 1
            c2 = end_conc(*start_conc(pid, lib, tmp, seed + 1000 * n, 'thorough', 100, tag='s%d' % n))
            cfail = [f for f in c2['failures'] if not f.get('harness_error')]
    known = load_known()
    lines = []
    rc = 0
    nviol = 0

    def replay(name, obj):
        p = os.path.join(evd, 'replay', '%s-%s.json' % (pid, name))
        json.dump(obj, open(p, 'w'), indent=1, default=str)
        return os.path.relpath(p, HERE)
    hit = set()
    real = []
    for f in cfail:
        k = [k for k in known if k['property'] == pid and k['check'] == f['check'] and all(
            (f.get('inputs') or {}).get(a) == b for a, b in k.get('inputs', {}).items())]
        if k:
            hit.add(k[0]['what'])
        else:
            real.append(f)
    for k in (cres or {}).get('known', []):
        hit.add(k)
    for h in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, h))
    obl_names = ['%s: %s (%s)' % (a, b, c) for a, b, c, _ in failed]
    if real:
        p = replay('input', dict(property=pid, seed=seed, tier=tier, failing_inputs=real, failed_obligations=obl_names,
                                 how_to_replay='VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s' % (seed, tier, pid)))
        seen = set()
        for f in real:
            if f['check'] in seen:
                continue
            seen.add(f['check'])
            print('  violated: %s -- %s' % (f['check'], str(f['detail'])[:300].replace('\n', ' ')))
        for o in obl_names[:10]:
            print('  undischarged obligation: %s' % o[:200])
        print('VIOLATION property=%s replay=%s' % (pid, p))
        rc, nviol = 1, len(real)
    elif failed or herr:
        p = replay('obligation', dict(property=pid, failed_obligations=[dict(function=a, obligation=b, where=c, verifier=d) for a, b, c, d in failed][:30],
                                      harness=herr))
        for o in obl_names[:10]:
            print('  undischarged obligation: %s' % o[:300])
        for h in herr[:3]:
            print('  harness: %s' % str(h['detail'])[-400:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        rc, nviol = 1, len(failed) + len(herr)
    # ------------------------------------------------------------ evidence
    fns = sorted({f for r in res for f in [r['fn']]})
    inl = sorted({f for r in res for f in r['funcs']} - set(fns))
    ext = sorted({f for r in res for f in r['ext']})
    by = {}
    for r in res:
        for o in r['obl']:
            if o['ok']:
                by[o['by']] = by.get(o['by'], 0) + 1
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='python3-vt check.py %s %s' % (pid, tier),
               trusted_base=props.TRUSTED + P.get('trusted', []),
               functions_under_contract=fns, functions_inlined=inl, assumed_contracts=ext,
               discharged_by=by, loops=sum(r['loops'] for r in res), solver_seconds=round(sum(o['t'] for r in res for o in r['obl']), 1),
               symbolic_execution_seconds=round(sum(r['time'] for r in res), 1),
               per_function=[dict(contract=r['name'], obligations=len(r['obl']), discharged=sum(o['ok'] for o in r['obl']), seconds=round(r['time'], 1),
                                  **({'bounded': r['bounded']} if r['bounded'] else {}), **({'error': r['error']} if r['error'] else {})) for r in res],
               bounded_parts=P.get('bounded', []))
    if cres:
        cov.update(evaluations=cres['evaluations'], distinct_nontrivial=cres['distinct'],
                   rule='contracts evaluated on the freshly built code; a case counts once per (contract clause, distinct generated input)',
                   runtime_contract_clauses=cres['checks'], samples=cres['samples'][:4])
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=P.get('assumptions', []) + props.ASSUMPTIONS,
              wall_s=round(time.time() - T0, 1), violations=nviol)
    if P['level'] == 'other':
        cov['explanation'] = P.get('explanation', '')
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d contracts (%d functions inlined), %d runtime evaluations, %.0fs' % (
        pid, ndis, nobl, len(res), len(inl), (cres or {}).get('evaluations', 0), time.time() - T0))
    return rc


if __name__ == '__main__':
    main()
