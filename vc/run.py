"""Decide one property: discharge every obligation of its contracts on /repo's current source,
validate/replay with the harness on the real code, write evidence."""
import argparse
import importlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa

HERE = build.HERE


def verify_case(a):
    """one (contract, case) in its own process"""
    mod_path, pid, ti, budget, timeout = a
    t0 = time.time()
    from engine import Executor, ToolLimit, PathEnd
    from contract import Contracts, find_function
    from llvmir import Module
    P = importlib.import_module('props.' + pid).PROP
    res = {'title': '', 'status': 'verified', 'obligations': [], 'msg': '', 'paths': 0, 'func': ''}
    try:
        cons = P.contracts()
        c = P.targets(cons)[ti]
        res['title'] = c.title
        res['func'] = c.func
        m = Module(mod_path)
        lib = P.lib()
        ex = Executor(m, lib, Contracts([k for k in cons if not getattr(k, 'inline', False)]), solver_timeout=timeout)
        ex.deadline = time.time() + budget
        ex.loopspecs = dict(P.loopspecs) if hasattr(P, 'loopspecs') else {}
        if hasattr(c, 'loopspecs'):
            ex.loopspecs.update(c.loopspecs)
        if hasattr(c, 'prepare'):
            c.prepare(ex)
        else:
            # callee contracts written in C++ are in force only for contracts of the same probe file
            ex.contracts.disabled.update(k for k in ex.contracts.lst if hasattr(k, 'src'))
        try:
            names = c.locate(m, ex) if hasattr(c, 'locate') else find_function(m, ex, c.func, all=True)
            if not names:
                res['status'] = 'missing'
                res['msg'] = 'no function matches ' + c.func
            ncase = 0
            for name in names:
                ex.root = c
                ex.cur_fn = m.func(name)
                for st, args, ctx in c.setup(ex):
                    ncase += 1
                    r, _, _ = ex.check(st.pc, [])
                    if r == 'unsat':
                        raise ToolLimit('precondition of %s unsatisfiable' % c.title)
                    old = st.snap()
                    ex.root_args = args
                    if hasattr(ex, 'globals_init'):
                        pass
                    fin = ex.run_function(st, name, args)
                    res['paths'] += len(fin)
                    for s, o in fin:
                        try:
                            for l, cond in c.post(ex, old, s, args, o, ctx):
                                ex.oblige(s, '%s: %s' % (c.short(), l), cond)
                        except PathEnd:
                            pass
                    if hasattr(c, 'closing'):
                        c.closing(ex, fin, ctx)
            if names and res['paths'] == 0:
                res['status'] = 'unknown'
                res['msg'] = 'no path reaches the end of the function'
        except ToolLimit as e:
            res['status'] = 'limit'
            res['msg'] = str(e)
        except PathEnd:
            res['status'] = 'limit'
            res['msg'] = 'path ended outside exploration'
        for o in ex.obls:
            d = {'label': o.label, 'status': o.status, 't': round(o.time, 4), 'be': o.backend, 'where': o.where}
            if o.status == 'failed' and o.model is not None:
                d['model'] = model_text(o.model)
            res['obligations'].append(d)
        bad = [o for o in ex.obls if o.status == 'failed']
        unk = [o for o in ex.obls if o.status == 'unknown']
        if bad:
            res['status'] = 'failed'
        elif unk and res['status'] == 'verified':
            res['status'] = 'unknown'
            res['msg'] = 'solver gave no answer on: ' + '; '.join(sorted(set(o.label for o in unk)))[:400]
        res['solver_time'] = ex.solver_time
        res['queries'] = ex.nqueries
        res['models'] = sorted(ex.used_models)
        res['used_contracts'] = sorted(ex.used_contracts)
        res['inlined'] = sorted(k.split('(')[0] for k in ex.inlined if 'Bloomberg' in k.split('(')[0])
        res['assumptions'] = sorted(ex.assumptions)
    except build.BuildError as e:
        res['status'] = 'limit'
        res['msg'] = 'build: ' + str(e)[:500]
    except Exception as e:
        res['status'] = 'limit'
        res['msg'] = 'internal: %s' % traceback.format_exc()[-500:]
    res['wall'] = round(time.time() - t0, 2)
    return res


def _task(a, path):
    import pickle
    if os.environ.get('VERIF_PROFILE'):
        import cProfile
        import pstats
        import signal

        def stop(*_):
            raise SystemExit
        signal.signal(signal.SIGALRM, stop)
        signal.alarm(int(os.environ['VERIF_PROFILE']))
        pr = cProfile.Profile()
        try:
            r = pr.runcall(verify_case, a)
        finally:
            pstats.Stats(pr).sort_stats('cumulative').print_stats(45)
    else:
        r = verify_case(a)
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.rename(path + '.tmp', path)


def run_tasks(ctx, tasks, hard):
    """every task in its own process; a crash or overrun of one leaves it undecided, never the whole run"""
    import pickle
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='vc-')
    res = [None] * len(tasks)
    queue = list(range(len(tasks)))
    live = {}
    try:
        while queue or live:
            while queue and len(live) < build.JOBS:
                k = queue.pop(0)
                p = ctx.Process(target=_task, args=(tasks[k], os.path.join(d, str(k))))
                p.start()
                live[k] = (p, time.time())
            time.sleep(0.02)
            for k, (p, t0) in list(live.items()):
                over = time.time() - t0 > hard
                if p.is_alive() and not over:
                    continue
                if p.is_alive():
                    p.kill()
                p.join()
                del live[k]
                try:
                    with open(os.path.join(d, str(k)), 'rb') as f:
                        res[k] = pickle.load(f)
                except Exception:
                    P = importlib.import_module('props.' + tasks[k][1]).PROP
                    c = P.targets(P.contracts())[tasks[k][2]]
                    res[k] = {'title': c.title, 'status': 'limit', 'obligations': [], 'func': c.func, 'paths': 0, 'wall': round(time.time() - t0, 1),
                              'msg': 'verifier process %s' % ('ran out of time' if over else 'died (exit %s)' % p.exitcode)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def model_text(m):
    out = []
    try:
        for d in m.decls():
            v = str(m[d])
            if len(v) > 200:
                v = v[:200] + '...'
            out.append('%s = %s' % (d.name(), v))
    except Exception:
        pass
    return sorted(out)[:120]


def run_harness(P, tier, seed, replay_dir, budget):
    """-> dict(status ok|fail|none, log, cases)"""
    h = getattr(P, 'harness', None)
    if not h:
        return {'status': 'none'}
    t0 = time.time()
    try:
        exe = build.build_harness(h['src'], h['tus'], sanitize=h.get('sanitize', True), opt=h.get('opt', '-O1'))
    except build.BuildError as e:
        return {'status': 'nobuild', 'log': str(e)[-3000:], 'wall': time.time() - t0}
    tb = time.time() - t0
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    rp = os.path.join(replay_dir, P.id + '-input.txt')
    cmd = [exe, '--seed', str(seed), '--seconds', str(budget), '--out', rp] + h.get('args', [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, timeout=budget * 3 + 60, cwd=replay_dir)
    except subprocess.TimeoutExpired as e:
        return {'status': 'timeout', 'log': 'harness did not finish: ' + ' '.join(cmd) + '\n' + str((e.stdout or b'')[-1500:]),
                'wall': time.time() - t0, 'cmd': ' '.join(cmd)}
    cases = 0
    mm = re.findall(r'^CASES (\d+)', p.stdout, re.M)
    if mm:
        cases = int(mm[-1])
    st = 'ok' if p.returncode == 0 and cases > 0 else 'fail'
    return {'status': st, 'rc': p.returncode, 'log': (p.stdout[-4000:] + p.stderr[-6000:]), 'cases': cases, 'build': round(tb, 1),
            'wall': time.time() - t0, 'cmd': ' '.join(cmd), 'input': rp if os.path.exists(rp) else None}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noharness', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    P = importlib.import_module('props.' + pid).PROP
    thorough = a.tier == 'thorough'
    timeout = 60000 if thorough else 20000
    budget = 500 if thorough else 240
    replay_dir = os.path.join(HERE, 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    # harness in the background
    ctx = multiprocessing.get_context('fork')
    hq = ctx.Queue()

    def hrun():
        try:
            hq.put(run_harness(P, a.tier, a.seed, replay_dir, P.harness_seconds(thorough)))
        except Exception:
            hq.put({'status': 'nobuild', 'log': traceback.format_exc()})
    hp = None
    results = []
    tus = P.tus
    note = []
    err = None
    try:
        mod = build.emit_ir(tus)
        note += ['probe not usable on this tree: ' + x for x in build.PROBE_ERRORS]
    except build.BuildError as e:
        err = str(e)
        mod = None
    if not a.noharness and getattr(P, 'harness', None):
        hp = ctx.Process(target=hrun)
        hp.start()
    if mod is not None:
        nt = len(P.targets(P.contracts()))
        idx = [i for i in range(nt) if not a.only or re.search(a.only, P.targets(P.contracts())[i].title)]

        def go(mod, idx):
            return run_tasks(ctx, [(mod, pid, i, budget, timeout) for i in idx], budget * 1.5 + 60)
        results = go(mod, idx)
        redo = [k for k, r in enumerate(results) if r['status'] in ('missing', 'limit') and
                (r['status'] == 'missing' or 'call to external Bloomberg' in r['msg'] or 'no body for' in r['msg'])]
        if redo and set(tus) != set(build.all_tus()):
            try:
                mod2 = build.emit_ir(build.all_tus() + [t for t in tus if t.startswith("/")])
                r2 = go(mod2, [idx[k] for k in redo])
                for k, r in zip(redo, r2):
                    results[k] = r
                note.append('all translation units loaded for %d contracts' % len(redo))
            except build.BuildError as e:
                note.append('loading all translation units failed: ' + str(e)[:200])
    H = {'status': 'none'}
    if hp is not None:
        H = hq.get()
        hp.join()
    failed = [r for r in results if r['status'] == 'failed']
    undecided = [r for r in results if r['status'] in ('limit', 'unknown', 'missing')]
    if a.v or os.environ.get('VERIF_VERBOSE'):
        for r in results:
            bad = [o for o in r['obligations'] if o['status'] != 'discharged']
            print('%-9s %-70s paths %d obls %d bad %d %.1fs %s' % (r['status'], r['title'][:70], r['paths'], len(r['obligations']), len(bad),
                                                                  r['wall'], r['msg'][:600]))
            for o in bad[:8]:
                print('      %s: %s  @ %s' % (o['status'], o['label'], o['where']))
                if a.v and o.get('model') and os.environ.get('VERIF_MODEL'):
                    print('        ' + '\n        '.join(o['model']))
        print('harness:', {k: v for k, v in H.items() if k != 'log'})
        if H.get('status') not in ('ok', 'none'):
            print(H.get('log', '')[-3000:])
    violation = None
    if H['status'] == 'fail':
        violation = 'found'
    elif H['status'] == 'timeout' and failed:
        violation = 'found'
    if failed and violation is None:
        # more search effort for a failing input before giving up on one
        if hp is not None and H['status'] == 'ok':
            H2 = run_harness(P, a.tier, a.seed + 1000, replay_dir, P.harness_seconds(True))
            if H2['status'] == 'fail':
                H = H2
                violation = 'found'
        if violation is None:
            violation = 'noinput'
    rc = 0
    obl = [o for r in results for o in r['obligations']]
    ndis = sum(1 for o in obl if o['status'] == 'discharged')
    known = known_findings(pid)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if violation:
        rp = os.path.join(replay_dir, pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\nrepo tree: %s\n' % (pid, build.REPO))
            if failed:
                f.write('\nFAILED OBLIGATIONS\n')
                nf = 0
                for r in failed:
                    for o in r['obligations']:
                        if o['status'] == 'failed' and nf < 60:
                            nf += 1
                            f.write('- contract: %s\n  function: %s\n  obligation: %s\n  at: %s\n  back end: %s\n' %
                                    (r['title'], r['func'], o['label'], o['where'], o['be']))
                            if o.get('model'):
                                f.write('  countermodel:\n    ' + '\n    '.join(o['model']) + '\n')
            if violation == 'found':
                f.write('\nFAILING INPUT (real code, harness)\ncommand: %s\n%s\n' % (H.get('cmd'), H.get('log', '')))
                if H.get('input') and os.path.exists(H['input']):
                    f.write('\ninput file %s:\n' % H['input'])
                    f.write(open(H['input'], errors='replace').read()[:20000])
            else:
                f.write('\nno failing input found by the harness: %s\n%s\n' % (H.get('cmd'), H.get('log', '')[-2000:]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if violation == 'found' else ' no-failing-input-found'))
        seen = set()
        for r in failed:
            for o in r['obligations']:
                if o['status'] == 'failed' and (r['title'], o['label']) not in seen and len(seen) < 40:
                    seen.add((r['title'], o['label']))
                    print('  failed obligation [%s] %s' % (r['title'], o['label']))
        rc = 1
    level = 'proof' if not undecided and not err else 'other'
    solvers = {}
    for o in obl:
        solvers[o['be']] = solvers.get(o['be'], 0) + 1
    cov = {
        'obligations': len(obl), 'discharged': ndis,
        'checker_cmd': 'python3-vt /verif/vc/run.py %s --tier %s' % (pid, a.tier),
        'obligations_by_back_end': solvers,
        'solver_time_s': round(sum(r.get('solver_time', 0) for r in results), 2),
        'functions_under_contract': [{'contract': r['title'], 'function': r['func'], 'result': r['status'], 'paths': r['paths'],
                                      'obligations': len(r['obligations']), 'wall_s': r['wall'],
                                      'executed_in_place': r.get('inlined', []), 'contracts_used_at_calls': r.get('used_contracts', []),
                                      'note': r['msg'][:400]} for r in results],
        'trusted_base': sorted(set(x for r in results for x in r.get('models', []))),
        'bounded_standins': [r['title'] for r in undecided],
        'harness': {k: H.get(k) for k in ('status', 'cases', 'cmd')},
        'extraction': 'clang++ 18 -O1 -disable-llvm-passes LLVM IR of the unmodified translation units, then sroa and simplifycfg; '
                      'drops: optimisation, debug info, assert() (NDEBUG as in the shipped build)',
        'units': tus, 'notes': note + ([err[:500]] if err else []),
    }
    if level == 'other':
        cov['explanation'] = 'some contracts were not decided by the verifier on this tree; for those only the bounded harness stands in: ' + \
            ', '.join(r['title'] for r in undecided)
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': level, 'coverage': cov,
          'assumptions': P.assumptions + sorted(set(x for r in results for x in r.get('assumptions', []))),
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        if not results and H['status'] != 'ok':
            # nothing could be decided (e.g. /repo does not compile): no answer
            print('NO-ANSWER property=%s: %s' % (pid, (err or H.get('log', ''))[:300]))
            rc = 3
        else:
            print('OK property=%s obligations=%d discharged=%d contracts=%d undecided=%d harness=%s cases=%s wall=%.0fs' %
                  (pid, len(obl), ndis, len(results), len(undecided), H['status'], H.get('cases'), time.time() - t0))
            for r in undecided:
                print('  undecided (bounded stand-in only): %s: %s' % (r['title'], r['msg'][:200]))
    return rc


def known_findings(pid):
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


if __name__ == '__main__':
    sys.exit(main())
