"""Decide one property.

    python3-vt -B -m sx.check C03 [--tier quick|thorough] [--only FUNC] [--budget S] [-v]
"""
import argparse
import json
import logging
import multiprocessing as mp
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UDAPI_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
VENV_PY = '/opt/venv/bin/python'
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                ident, _, text = line.split(' ', 2)[2].partition(' ')
                out[ident] = text
    return out


def replay(entries, single=False):
    """Run entries with the plain code; returns their results."""
    d = os.path.join(VERIF, 'evidence', 'tmp')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'replay-%d-%d.json' % (os.getpid(), time.time_ns()))
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump(entries, fh)
    env = dict(os.environ, PYTHONPATH='%s:%s' % (VERIF, REPO), PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([VENV_PY, '-B', '-m', 'sx.replay', path], capture_output=True, env=env, cwd=VERIF,
                           timeout=60 if single else 300)
        out = p.stdout.decode('utf-8', 'replace')
        err = p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        out, err = (e.stdout or b'').decode(), 'timeout'
    os.unlink(path)
    res = []
    for line in out.splitlines():
        try:
            res.append(json.loads(line))
        except ValueError:
            pass
    n = 1 if single else len(entries)
    while len(res) < n:
        res.append({'outcome': 'hang' if err == 'timeout' else 'crash', 'msg': err[-500:], 'observed': [], 'tags': []})
    return res


def worker(conn, harnesses, known, repo_pid):
    import gc
    gc.freeze()
    from . import explore
    while True:
        task = conn.recv()
        if task is None:
            return
        hidx, prefixes, seconds, want = task
        try:
            r = explore.run_task(harnesses, hidx, prefixes, seconds, want, known)
            conn.send((hidx, r.pending, r.candidates, r.samples, r.inconclusive, r.labels, r.stats, r.entered))
        except BaseException as e:
            import traceback
            conn.send(('error', traceback.format_exc()))


def explore_all(harnesses, known, jobs, budget, verbose, nsamples=24):
    """Distribute the exploration over worker processes."""
    from multiprocessing.connection import wait
    tasks = {i: [[]] for i in range(len(harnesses))}      # hidx -> prefixes
    agg = {'stats': {}, 'inconclusive': {}, 'labels': {i: {} for i in tasks}, 'samples': {i: [] for i in tasks},
           'candidates': [], 'entered': set(), 'complete': set(), 'paths': {i: 0 for i in tasks},
           'time': {i: 0.0 for i in tasks}, 'errors': []}
    ctx = mp.get_context('fork')
    conns, procs = [], []
    for _ in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, harnesses, known, os.getpid()), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    idle, busy, running = list(conns), {}, {i: 0 for i in tasks}
    start = time.time()
    last = {}
    stop = False
    while True:
        left = budget - (time.time() - start)
        if left <= 0:
            stop = True
        while idle and not stop:
            # the harness with the least time spent per priority, prefer those with pending work
            cand = [i for i in tasks if tasks[i]]
            if not cand:
                break
            i = min(cand, key=lambda i: (running[i], agg['time'][i]))
            c = idle.pop()
            pre = tasks[i]
            k = max(1, min(64, (len(pre) + 1) // 2 if len(cand) == 1 and len(pre) > 1 else len(pre)))
            if running[i] == 0 and len(idle) == 0:
                k = len(pre)
            # the newest (deepest) prefixes are cheap, the oldest are big: mix by taking from the front
            take, tasks[i] = pre[:k], pre[k:]
            want = 3 if len(agg['samples'][i]) < nsamples // 2 else (1 if len(agg['samples'][i]) < nsamples else 0)
            if nsamples > 1000:
                want = nsamples
            c.send((i, take, 0.4, want))
            busy[c] = (i, time.time())
            running[i] += 1
        if not busy:
            break
        ready = wait(list(busy), timeout=120)
        if not ready:
            agg['errors'].append('a worker does not answer')
            break
        for c in ready:
            i, t0 = busy.pop(c)
            running[i] -= 1
            try:
                r = c.recv()
            except EOFError:
                agg['errors'].append('a worker died')
                stop = True
                continue
            idle.append(c)
            if r[0] == 'error':
                agg['errors'].append(r[1])
                stop = True
                continue
            _, pending, candidates, samples, inc, labels, stats, entered = r
            agg['time'][i] += time.time() - t0
            tasks[i].extend(pending)
            agg['samples'][i].extend(samples)
            agg['entered'].update(entered)
            for k, v in inc.items():
                agg['inconclusive'][k] = agg['inconclusive'].get(k, 0) + v
            for k, v in labels.items():
                agg['labels'][i][k] = agg['labels'][i].get(k, 0) + v
            for k, v in stats.items():
                agg['stats'][k] = agg['stats'].get(k, 0) + v
            agg['paths'][i] += stats['paths']
            for cand in candidates:
                if set(cand['tags']) & set(known):
                    agg.setdefault('known', []).append(cand)
                    continue
                agg['candidates'].append(cand)
                # judge at once: one that reproduces ends the run
                if len(agg['candidates']) <= 40:
                    rr = replay({k: cand[k] for k in ('module', 'func', 'params', 'values')}, single=True)[0]
                    cand['replay'] = rr
                    if rr['outcome'] in ('violated', 'exception', 'hang'):
                        stop = True
            if sum(1 for x in agg['candidates']) > 40:
                stop = True
    for i in tasks:
        if not tasks[i] and not stop:
            agg['complete'].add(i)
        elif not tasks[i] and running[i] == 0:
            agg['complete'].add(i)
    agg['left'] = {i: len(tasks[i]) for i in tasks if tasks[i]}
    for c in conns:
        try:
            c.send(None)
        except (OSError, BrokenPipeError):
            pass
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    agg['wall'] = time.time() - start
    return agg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SX_JOBS', '8')))
    ap.add_argument('--samples', type=int, default=24)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    sys.path.append(VENV_SITE)
    sys.setrecursionlimit(4000)
    logging.disable(logging.CRITICAL)
    from . import loader, explore
    loader.install(REPO, VERIF)
    module = 'harness.' + prop.lower()
    funcs = explore.load(module)
    harnesses = []
    for f in funcs:
        if a.only and a.only not in f.__name__:
            continue
        for params in (f.quick if a.tier == 'quick' else f.thorough):
            harnesses.append((module, f.__name__, params, f))
    known = known_findings(prop)
    budget = a.budget or (90 if a.tier == 'quick' else 600)
    agg = explore_all(harnesses, tuple(known), a.jobs, budget, a.v, a.samples)

    # ---- candidates have been replayed on the plain code
    violations, unreproduced, gaps = [], [], []
    for c in agg['candidates']:
        r = c.get('replay')
        if r is None:
            continue
        if r['outcome'] in ('violated', 'exception', 'hang'):
            violations.append(c)
        elif c['kind'] == 'exception' and ('Sym' in c['msg'] or c.get('etype') in ('TypeError', 'AttributeError')):
            gaps.append(c)
        elif c['kind'] == 'hang':
            gaps.append(c)
        else:
            unreproduced.append(c)
    for c in gaps:
        k = 'gap: ' + c['msg'][:300]
        agg['inconclusive'][k] = agg['inconclusive'].get(k, 0) + 1

    # ---- sampled passing paths: the plain code must behave as the symbolic path said
    samples = [s for i in agg['samples'] for s in agg['samples'][i][:max(30, a.samples)]]
    validated, mismatches = 0, []
    if samples and not violations:
        rs = replay([{k: s[k] for k in ('module', 'func', 'params', 'values')} for s in samples])
        for s, r in zip(samples, rs):
            if r['outcome'] == 'ok' and r['observed'] == s['observed']:
                validated += 1
            else:
                mismatches.append((s, r))
    for s, r in mismatches:
        if r['outcome'] in ('violated', 'exception'):
            # the plain run breaks the property although the path did not: a genuine failing input
            violations.append(dict(s, kind='sample', msg=r['msg'], replay=r))

    # ---- known findings
    seen_known = {}
    for c in agg.get('known', []):
        for t in c['tags']:
            if t in known and t not in seen_known:
                r = replay({k: c[k] for k in ('module', 'func', 'params', 'values')}, single=True)[0]
                if r['outcome'] in ('violated', 'exception', 'hang'):
                    seen_known[t] = c
    for t in sorted(known):
        if t in seen_known:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, t, known[t]))

    # ---- vacuity
    complete = len(agg['complete']) == len(harnesses)
    missing = []
    for i, h in enumerate(harnesses):
        if i in agg['complete'] or complete:
            need = h[3].reach - set(agg['labels'][i])
            opt = h[2].get('unreached', ())
            missing.extend('%s%s: %s' % (h[1], h[2], l) for l in need if l not in opt)
            if agg['paths'][i] == 0:
                missing.append('%s: no path' % h[1])

    st = agg['stats']
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': st.get('paths', 0), 'transitions': st.get('decisions', 0) + st.get('forced', 0),
            'traces_validated_against_impl': validated,
            'samples': [{'harness': s['func'], 'params': s['params'], 'inputs': s['values']} for s in samples[:6]],
            'exhaustive': complete and not agg['inconclusive'],
            'paths': st.get('paths', 0), 'branch_decisions': st.get('decisions', 0),
            'branches_with_one_feasible_side': st.get('forced', 0),
            'queries': st.get('queries', 0), 'solver_s': round(st.get('solver_s', 0), 2),
            'assertions_checked': st.get('checks', 0), 'assertions_by_solver': st.get('checks_solver', 0),
            'paths_assumed_away': st.get('aborted', 0), 'unknown': st.get('unknown', 0),
            'unsupported_paths': st.get('unsupported', 0), 'inconclusive': agg['inconclusive'],
            'harnesses': [{'name': h[1], 'params': h[2], 'bounds': h[3].bounds, 'paths': agg['paths'][i],
                           'complete': i in agg['complete'], 'pending': agg['left'].get(i, 0),
                           'reached': agg['labels'][i], 'cpu_s': round(agg['time'][i], 1)}
                          for i, h in enumerate(harnesses)],
            'functions_encoded': sorted(e for e in agg['entered'] if e.startswith('udapi.')),
            'sample_mismatches': len(mismatches), 'unreproduced': len(unreproduced),
        },
        'assumptions': ['bounds as listed per harness; nothing is claimed beyond them',
                        'library models (str, re, dict, set, io) behave like CPython 3.12, validated by replaying '
                        'sampled paths on the plain code and by sx/selftest.py'],
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')
    if a.v:
        for i, h in enumerate(harnesses):
            print('%-34s %-40s paths %6d %s cpu %.1f %s' % (h[1], json.dumps(h[2])[:40], agg['paths'][i],
                  'complete' if i in agg['complete'] else 'LEFT %d' % agg['left'].get(i, 0), agg['time'][i],
                  agg['labels'][i]))
        for k, v in sorted(agg['inconclusive'].items()):
            print('   inconclusive %d x %s' % (v, k))
        for c in gaps[:5]:
            print('   GAP', json.dumps(c['values'])[:300], c['msg'])
        print(json.dumps(st))
    status = 0
    if violations:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, c in enumerate(violations[:5]):
            path = os.path.join(rd, '%s-%d.json' % (prop, n))
            with open(path, 'w', encoding='utf-8') as fh:
                json.dump({k: c[k] for k in ('module', 'func', 'params', 'values', 'msg')}, fh, indent=1)
                fh.write('\n')
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s%s: %s' % (c['func'], json.dumps(c['params']), c['replay']['msg'] or c['msg']))
            print('  inputs: %s' % json.dumps(c['values'])[:1000])
        status = 1
    else:
        for e in agg['errors']:
            print('ERROR', e)
            status = 2
        for c in unreproduced[:5]:
            print('UNREPRODUCED %s%s: %s (%s)\n   inputs %s' % (
                c['func'], json.dumps(c['params']), c['msg'], c['kind'], json.dumps(c['values'])[:600]))
            status = 2
        for s, r in mismatches[:5]:
            if r['outcome'] != 'ok' or s['observed'] != r['observed']:
                print('MISMATCH %s: %s\n  sym   %s\n  plain %s\n  %s' % (s['func'], json.dumps(s['values'])[:600],
                      json.dumps(s['observed'])[:1500], json.dumps(r['observed'])[:1500], r['outcome'] + ' ' + r['msg']))
                status = 2
        for m in missing:
            print('UNREACHED %s' % m)
            status = 2
    print('%s %s: %d paths, %d queries, %.1f s solver, %.1f s wall, %s%s' % (
        prop, a.tier, st.get('paths', 0), st.get('queries', 0), st.get('solver_s', 0), wall,
        'complete' if complete else 'INCOMPLETE (time budget)',
        ', %d validated' % validated))
    sys.stdout.flush()
    os._exit(status)


if __name__ == '__main__':
    main()
