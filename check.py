#!/opt/venv/bin/python
"""Decide one property:  check.py <property id> [--tier quick|thorough] [--only harness[:caseindex]]

exit 0: every obligation discharged within the stated bounds
exit 1: a counterexample was found and reproduced on the real code (VIOLATION line)
exit 2: no answer (unsupported operation, solver unknown, counterexample not reproduced)
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def job_main(h, case, opts, seed, conn):
    os.setpgid(0, 0)
    sys.setrecursionlimit(20000)
    from symx import engine, core, loader, api
    eng = engine.Engine(seed=seed, **opts)
    res = {'status': 'ok'}
    t0 = time.time()
    called = set()
    base = os.path.join(loader.REPO, 'defdap') + os.sep
    mon = sys.monitoring
    mon.use_tool_id(3, 'symx')

    def on_start(code, off):
        if code.co_filename.startswith(base):
            called.add(code.co_filename[len(base):-3] + '.' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
    devnull = open(os.devnull, 'w')
    if not os.environ.get('SYMX_DEBUG'):
        sys.stdout = devnull
        sys.stderr = devnull
    try:
        def run(c):
            h.fn(api.SymA(c), **case)
        eng.explore(run)
    except core.BudgetExceeded as e:
        res['status'] = 'budget'
        res['error'] = str(e)
    except core.Unsupported as e:
        res['status'] = 'unsupported'
        res['error'] = '%s | %s' % (e, ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                    for f in reversed(traceback.extract_tb(e.__traceback__)[-6:])))
    except Exception as e:
        res['status'] = 'error'
        res['error'] = traceback.format_exc()[-2000:]
    s = eng.stats
    res.update(stats=s.__dict__, violations=eng.violations, unknowns=eng.unknowns, witnesses=eng.witnesses,
               notes=sorted(eng.notes), labels=eng.labels, wall=time.time() - t0,
               called=sorted(x for x in called if '<' not in x))
    try:
        conn.send_bytes(pickle.dumps(res))
    finally:
        conn.close()
    os._exit(0)


def run_jobs(jobs, seed, deadline, nproc=8):
    """jobs: list of (h, case, opts) ; returns list of results"""
    results = [None] * len(jobs)
    ctx = mp.get_context('fork')
    live = {}
    nxt = 0
    stop, tviol = False, None
    while nxt < len(jobs) or live:
        while nxt < len(jobs) and len(live) < nproc and not stop:
            h, case, opts = jobs[nxt]
            r, w = ctx.Pipe(False)
            left = deadline - time.time()
            if left < 5:
                results[nxt] = {'status': 'budget', 'error': 'global deadline'}
                nxt += 1
                continue
            o = dict(opts)
            o['time_limit'] = min(o.get('time_limit', 300), left)
            p = ctx.Process(target=job_main, args=(h, case, o, seed, w))
            p.start()
            w.close()
            live[nxt] = (p, r, time.time() + o['time_limit'] + 45)
            nxt += 1
        if stop:
            for i in range(nxt, len(jobs)):
                results[i] = {'status': 'skipped'}
            nxt = len(jobs)
        done = mp.connection.wait([r for _, r, _ in live.values()], timeout=0.5)
        for i, (p, r, tmax) in list(live.items()):
            if r in done:
                try:
                    results[i] = pickle.loads(r.recv_bytes())
                except EOFError:
                    results[i] = {'status': 'error', 'error': 'worker died'}
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
            elif time.time() > tmax:
                p.kill()
                p.join()
                results[i] = {'status': 'budget', 'error': 'killed: time'}
                del live[i]
        nv = sum(1 for x in results if x and x.get('violations'))
        if nv and tviol is None:
            tviol = time.time()
        if nv >= 3 or nv and time.time() > tviol + 90:
            stop = True
            # let running jobs be
            for i, (p, r, tmax) in list(live.items()):
                p.kill()
                p.join()
                results[i] = {'status': 'skipped'}
                del live[i]
    return results


def replay_batch(items, timeout=240):
    """run inputs on the real code in a fresh interpreter."""
    p = subprocess.run([sys.executable, os.path.join(HERE, 'replay.py'), '--batch'],
                       input=json.dumps(items), capture_output=True, text=True, timeout=timeout,
                       env=dict(os.environ, NUMBA_BOUNDSCHECK='1', PYTHONPATH=os.environ.get('VERIF_REPO', '/repo')))
    if p.returncode != 0:
        raise RuntimeError('replay failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def known_findings():
    """lines: KNOWN-FINDING property=<id> match=<substring> :: <what fails>"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                kv = dict(x.split('=', 1) for x in ln[len('finding:'):].split('::')[0].split())
                out.append((kv['property'], kv['harness'], kv.get('label', ''), ln.split('::', 1)[1].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid, tier = a.pid, a.tier
    budget = a.budget or (700 if tier == 'quick' else 3300)
    from symx import loader, reg
    loader.install()
    try:
        import defdap
        for m in ('quat', 'crystal', 'crystal_utils', 'ebsd', 'hrdic', 'inspector', 'file_readers', 'file_writers',
                  'utils', 'experiment', 'base', 'plotting', '_accelerated'):
            importlib.import_module('defdap.' + m)
    except Exception:
        traceback.print_exc()
        print('ERROR: shadow import failed')
        return 2
    load_harness(pid)
    hs = reg.REG.get(pid)
    if not hs:
        print('no harness for', pid)
        return 2
    jobs, meta = [], []
    for h in hs:
        for i, case in enumerate(h.get_cases(tier)):
            if a.only:
                on = a.only.split(':')
                if on[0] != h.name or (len(on) > 1 and int(on[1]) != i):
                    continue
            opts = dict(h.opts)
            opts.pop('doc', None)
            tl = opts.pop('thorough', None)
            if tier == 'thorough' and tl:
                opts.update(tl)
            jobs.append((h, case, opts))
            meta.append((h.name, i, case))
    res = run_jobs(jobs, seed, t0 + budget)
    code, lines, viol, warn = 0, [], [], []
    # replay candidates
    cand = []
    for (hn, ci, case), r in zip(meta, res):
        for v in r.get('violations', []):
            for m in v['models']:
                cand.append({'property': pid, 'harness': hn, 'case': ci, 'tier': tier, 'inputs': m, 'label': v['label']})
    wit = []
    for (hn, ci, case), r in zip(meta, res):
        for w in r.get('witnesses', [])[:2 if len(jobs) < 60 else 1]:
            wit.append({'property': pid, 'harness': hn, 'case': ci, 'tier': tier, 'inputs': w['inputs'], 'label': 'witness',
                        'obs': w['obs']})
    try:
        rr = replay_batch(cand + wit, timeout=max(60, min(400, t0 + budget + 150 - time.time())))
    except Exception as e:
        print('ERROR: replay:', str(e)[-1500:])
        rr = None
        code = 2
    known = known_findings()
    reproduced, not_rep, kf = [], [], []
    valid = mism = 0
    if rr is not None:
        seen = {}
        for cnd, o in zip(cand, rr[:len(cand)]):
            k = (cnd['harness'], cnd['case'], cnd['label'])
            if o['violated'] and not o['bad_assume']:
                if k not in seen or not seen[k]:
                    seen[k] = (cnd, o)
            else:
                seen.setdefault(k, None)
                if a.v:
                    print('not reproduced', cnd['label'], cnd['inputs'], o)
        for k, x in seen.items():
            (reproduced if x else not_rep).append(x or k)
        for w, o in zip(wit, rr[len(cand):]):
            if o['bad_assume']:
                warn.append('witness of %s outside assumptions after rounding' % w['harness'])
                continue
            if o['violated']:
                if any(r[0]['harness'] == w['harness'] and r[0]['case'] == w['case'] for r in reproduced):
                    continue
                w2 = dict(w)
                w2['label'] = 'model of the path condition fails on the real code: ' + o['violated'][0]
                reproduced.append((w2, o))
                continue
            valid += 1
            for n, vals in w['obs'].items():
                ov = o['obs'].get(n)
                if ov is None or not _close(vals, ov):
                    mism += 1
                    warn.append('observation %s of %s:%d differs: %r vs %r' % (n, w['harness'], w['case'], str(vals)[:150], str(ov)[:150]))
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for cnd, o in reproduced:
        f = [k for k in known if k[0] == pid and k[1] == cnd['harness'] and k[2] in (cnd['label'] + ' | ' + ' ; '.join(o['violated']))]
        if f:
            kf.append((f[0], cnd, o))
            continue
        path = os.path.join(HERE, 'replays', '%s_%s_%d_%d.json' % (pid, cnd['harness'], cnd['case'], len(viol)))
        with open(path, 'w') as fh:
            json.dump(dict(cnd, observed=o['violated']), fh, indent=1)
        viol.append((cnd, o, path))
    for ln in sorted({'KNOWN-FINDING: property=%s %s' % (pid, k[0][3]) for k in kf}):
        print(ln)
    errs = []
    for (hn, ci, case), r in zip(meta, res):
        if r['status'] not in ('ok', 'skipped'):
            errs.append('%s:%d %s %s' % (hn, ci, r['status'], r.get('error', '')))
        if r.get('unknowns'):
            errs.append('%s:%d undecided: %s' % (hn, ci, sorted(set(r['unknowns']))[:4]))
        if r['status'] == 'ok' and r['stats']['paths'] == 0:
            errs.append('%s:%d vacuous: no path reaches the assertions' % (hn, ci))
        elif r['status'] == 'ok' and not r['labels'] and not r['violations']:
            errs.append('%s:%d vacuous: no obligation' % (hn, ci))
    for k in not_rep:
        errs.append('counterexample not reproduced on the real code: %s:%d %s' % k)
    if viol:
        code = 1
        for cnd, o, path in viol[:5]:
            print('  %s[%d] %s' % (cnd['harness'], cnd['case'], '; '.join(o['violated'][:2])[:300]))
            print('  inputs: %s' % json.dumps(cnd['inputs'])[:400])
            print('VIOLATION property=%s replay=%s' % (pid, path))
    elif errs:
        code = 2
    for e in errs[:12]:
        print('NOANSWER:' if code == 2 else 'note:', e[:1500])
    for w in warn[:6]:
        print('note:', w[:400])
    evidence(pid, tier, seed, meta, res, viol, kf, errs, warn, valid, mism, t0, a)
    tot = lambda f: sum(r.get('stats', {}).get(f, 0) for r in res)
    print('%s %s: %d harness cases, %d paths, %d obligations, %d solver queries, %.1f s solver, %.1f s wall, exit %d' % (
        pid, tier, len(jobs), tot('paths'), tot('oblig'), tot('queries'), tot('solver_s'), time.time() - t0, code))
    if a.v:
        for (hn, ci, case), r in zip(meta, res):
            s = r.get('stats', {})
            print('   %-28s %3d %-10s paths=%s obl=%s q=%s solver=%.1f wall=%.1f %s' % (
                hn, ci, r['status'], s.get('paths'), s.get('oblig'), s.get('queries'), s.get('solver_s', 0), r.get('wall', 0), case))
    return code


def _close(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if x != x and y != y:
                continue
            if abs(x - y) > 1e-5 * max(1, abs(x), abs(y)):
                return False
        elif isinstance(x, bool) or isinstance(y, bool):
            if bool(x) != bool(y):
                return False
        elif x != y and str(x) != str(y):
            return False
    return True


def load_harness(pid):
    import glob
    for p in sorted(glob.glob(os.path.join(HERE, 'harness', '*.py'))):
        src = open(p).read()
        if "'%s'" % pid in src:
            importlib.import_module('harness.' + os.path.basename(p)[:-3])


def evidence(pid, tier, seed, meta, res, viol, kf, errs, warn, valid, mism, t0, a):
    if a.only:
        return
    from symx import reg
    docs = {h.name: (h.fn.__doc__ or '').strip() for h in reg.REG[pid]}
    funcs = sorted({f for r in res for f in r.get('called', [])})
    tot = lambda f: sum(r.get('stats', {}).get(f, 0) for r in res)
    hs = {}
    for (hn, ci, case), r in zip(meta, res):
        d = hs.setdefault(hn, {'bounds': docs[hn], 'cases': 0, 'paths': 0, 'obligations': 0, 'queries': 0, 'solver_s': 0.0,
                               'labels': {}})
        s = r.get('stats', {})
        d['cases'] += 1
        d['paths'] += s.get('paths', 0)
        d['obligations'] += s.get('oblig', 0)
        d['queries'] += s.get('queries', 0)
        d['solver_s'] = round(d['solver_s'] + s.get('solver_s', 0), 2)
        for l, n in r.get('labels', {}).items():
            l = l.split('[')[0]
            d['labels'][l] = d['labels'].get(l, 0) + n
    notes = sorted({n for r in res for n in r.get('notes', [])})
    samples = []
    for (hn, ci, case), r in zip(meta, res):
        for w in r.get('witnesses', [])[:1]:
            if len(samples) < 6:
                samples.append({'harness': hn, 'case': str(case), 'reachability_witness': w['inputs']})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('queries'),
            'traces_validated_against_impl': valid,
            'samples': samples,
            'functions_encoded': funcs, 'harnesses': hs,
            'obligations': tot('oblig'), 'solver_queries': tot('queries'), 'unsat': tot('unsat'), 'sat': tot('sat'),
            'unknown': tot('unknown'), 'feasibility_queries': tot('feas'),
            'discharged_by_normal_form': tot('trivial'),
            'solver_seconds': round(tot('solver_s'), 2),
            'observation_mismatches': mism, 'notes': notes + warn[:10], 'undecided': errs[:20],
            'known_findings': [k[0][3] for k in kf],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': [
            'arithmetic is exact real arithmetic (floats as reals, decimal/sqrt2/sqrt3/pi constants snapped to exact values); rounding is outside the claim',
            'all bounds (array sizes, counts, ranges) are those stated per harness; larger inputs are outside the claim',
            'numba njit functions are executed from their Python source',
            'library calls replaced by contract stubs: see DESIGN.md',
        ] + notes,
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
