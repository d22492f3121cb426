"""Runner: explores every obligation of a property symbolically, replays on the unpatched code, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSYM_REPO', '/repo')


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def collect_functions(store):
    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(REPO):
                store.add(os.path.relpath(c.co_filename, REPO) + ':' + c.co_qualname)
    return prof


def explore(reg, name, seed, deadline):
    from vsym.core import Engine, PathAbort, Infeasible, Unsupported
    from vsym.symctx import SymCtx, Violation
    import z3
    ob = reg.obs[name]
    eng = Engine(seed=seed, check_timeout_ms=ob['check_ms'])
    Engine.cur = eng
    st = eng.stats
    res = dict(name=name, status='held', found=[], exceptions=[], unsupported=[], inconclusive=[], witnesses=[],
               functions=[], error=None)
    funcs = set()
    stack = [[]]
    t0 = time.time()
    end = min(deadline, t0 + ob['timeout'])
    nwit = 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(0.1, end - t0))
    try:
        while stack:
            if time.time() > end:
                raise Timeout()
            if st.paths >= ob['paths']:
                res['inconclusive'].append('path budget %d' % ob['paths'])
                break
            prefix = stack.pop()
            eng.reset_path(prefix)
            ctx = SymCtx(eng)
            st.paths += 1
            viol = False
            try:
                if st.paths <= 2:
                    sys.setprofile(collect_functions(funcs))
                try:
                    ob['f'](ctx, *ob['args'], **ob['kw'])
                finally:
                    sys.setprofile(None)
                if ctx.e.stats.checks == 0:
                    res['inconclusive'].append('no assertion reached')
                # reachability twin: assert(false) at the end of the path must be violated
                s = ctx.fresh_solver(5000)
                r = ctx._run(s)
                if r == z3.sat:
                    nwit += 1
                    if len(res['witnesses']) < 3 or (nwit % 97 == 0 and len(res['witnesses']) < 8):
                        res['witnesses'].append(ctx.model_inputs(s.model()))
                elif r == z3.unsat:
                    st.infeasible_paths += 1
                else:
                    res.setdefault('reach_unknown', 0)
                    res['reach_unknown'] += 1
            except Violation:
                viol = True
            except Infeasible:
                st.infeasible_paths += 1
            except Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if f.filename.startswith(REPO)]
                w = _model(ctx)
                if w is None:
                    st.infeasible_paths += 1     # no input takes this path
                else:
                    res['unsupported'].append(str(e)[:200] + (' at %s:%d' % (loc[-1].filename, loc[-1].lineno) if loc else ''))
                    res['exceptions'].append(('Unsupported', '', w))
            except Timeout:
                raise
            except z3.Z3Exception as e:
                res['unsupported'].append('z3: ' + str(e)[:200])
            except PathAbort:
                pass
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if f.filename.startswith(REPO)]
                w = _model(ctx)
                d = '%s: %s at %s' % (type(e).__name__, str(e)[:200], ('%s:%d' % (loc[-1].filename, loc[-1].lineno)) if loc else 'harness')
                if w is not None:
                    res['exceptions'].append((type(e).__name__, d, w))
                    if os.environ.get('VSYM_DEBUG'):
                        traceback.print_exc()
                elif w is None:
                    st.infeasible_paths += 1
            for l, d, w in ctx.found:
                res['found'].append((l, d, w))
            res['inconclusive'] += ctx.inconclusive
            # enumerate siblings
            tr = eng.trace
            for i in range(len(tr) - 1, len(prefix) - 1, -1):
                if tr[i][1]:
                    alt = (not tr[i][0], False) + tuple(tr[i][2:])
                    stack.append(tr[:i] + [alt])
            if len(res['found']) + len(res['exceptions']) >= 6:
                if len(res['found']) < 6 and len(res['exceptions']) > 0 and len(res['unsupported']) == len(res['exceptions']) and st.paths < 200:
                    continue
                res['stopped_early'] = True
                break
    except Timeout:
        res['inconclusive'].append('timeout')
    except RecursionError as e:
        res['unsupported'].append('recursion')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res['exceptions'] = res['exceptions'][:6]
    res['unsupported'] = res['unsupported'][:6]
    res['stats'] = st.as_dict()
    res['wall_s'] = time.time() - t0
    res['functions'] = sorted(funcs)
    res['uf'] = sorted(eng.uf_used)
    res['div_assumed'] = len(eng.assumed_nonzero)
    res['n_feasible'] = nwit
    return res


def _model(ctx):
    import z3
    try:
        s = ctx.fresh_solver(5000)
        r = s.check()
        if r == z3.sat:
            return ctx.model_inputs(s.model())
        if r == z3.unsat:
            return None
        return {}
    except Exception:
        return {}


def _worker(q, out, pid, seed, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    reg = REGS[pid]
    while True:
        name = q.get()
        if name is None:
            return
        out.put(('start', name, os.getpid()))
        try:
            r = explore(reg, name, seed, deadline)
        except BaseException as e:
            r = dict(name=name, status='error', error=traceback.format_exc()[-3000:], found=[], exceptions=[],
                     unsupported=['engine error: %s: %s' % (type(e).__name__, str(e)[:200])], inconclusive=[], witnesses=[], functions=[], stats={}, wall_s=0, uf=[],
                     n_feasible=0, div_assumed=0)
        out.put(('done', name, r))


REGS = {}


def concrete(pid, jobs, nproc, timeout):
    """run jobs on the unpatched code in separate interpreters"""
    if not jobs:
        return []
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + HERE, VSYM_REPO=REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    chunks = [jobs[i::nproc] for i in range(nproc)]
    idx = [list(range(len(jobs)))[i::nproc] for i in range(nproc)]
    ps = []
    for c in chunks:
        if not c:
            ps.append(None)
            continue
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'vsym', 'concrete.py')], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE, text=True)
        ps.append(p)
    import threading
    outs = [None] * len(ps)

    def comm(i):
        try:
            outs[i] = ps[i].communicate(json.dumps({'property': pid, 'jobs': chunks[i]}), timeout=timeout)
        except subprocess.TimeoutExpired:
            ps[i].kill()
            outs[i] = ('', 'timeout')
    th = [threading.Thread(target=comm, args=(i,)) for i in range(len(ps)) if ps[i] is not None]
    [t.start() for t in th]
    [t.join() for t in th]
    res = [None] * len(jobs)
    for i, p in enumerate(ps):
        if p is None:
            continue
        try:
            r = json.loads(outs[i][0])
            for k, x in zip(idx[i], r):
                res[k] = x
        except Exception:
            for k in idx[i]:
                res[k] = [{'ob': jobs[k]['ob'], 'status': 'error', 'detail': (outs[i][1] or '')[-500:]}]
    return res


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('status') == 'open']


def main(argv=None):
    warnings.simplefilter('ignore')
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    only = [a[7:] for a in argv if a.startswith('--only=')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 840 if tier == 'quick' else 3300
    nproc = min(8, os.cpu_count() or 1)
    sys.setrecursionlimit(10000)
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    from vsym import shim
    shim.install()
    reg = importlib.import_module('props.' + pid).REG
    REGS[pid] = reg
    names = [n for n, o in reg.obs.items() if tier == 'thorough' or o['tier'] == 'quick']
    if only:
        names = [n for n in names if any(o in n for o in only)]
    deadline = t0 + limit * .7
    # warm import happened once here; workers are forked
    ctx = mp.get_context('fork')
    q, out = ctx.Queue(), ctx.Queue()
    order = sorted(names, key=lambda n: -reg.obs[n].get('kw', {}).get('_cost', 0)) if False else names
    for n in order:
        q.put(n)
    for _ in range(nproc):
        q.put(None)
    ws = [ctx.Process(target=_worker, args=(q, out, pid, seed, deadline), daemon=True) for _ in range(nproc)]
    [w.start() for w in ws]
    results = {}
    running = {}
    import queue as _q
    while len(results) < len(names):
        try:
            k, n, r = out.get(timeout=2)
            if k == 'start':
                running[n] = (r, time.time())
            else:
                results[n] = r
                running.pop(n, None)
        except _q.Empty:
            pass
        now = time.time()
        dead = [n for n, (p, s) in running.items() if not _alive(p) or now - s > reg.obs[n]['timeout'] + 40 or now > deadline + 45]
        for n in dead:
            p, s = running.pop(n)
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
            results[n] = dict(name=n, status='killed', found=[], exceptions=[], unsupported=[], inconclusive=['killed/timeout'],
                              witnesses=[], functions=[], stats={}, wall_s=now - s, uf=[], n_feasible=0, div_assumed=0)
            nw = ctx.Process(target=_worker, args=(q, out, pid, seed, deadline), daemon=True)
            nw.start()
            ws.append(nw)
        if now > deadline + 60:
            break
    for n in names:
        if n not in results:
            results[n] = dict(name=n, status='not run', found=[], exceptions=[], unsupported=[], inconclusive=['not run: time'],
                              witnesses=[], functions=[], stats={}, wall_s=0, uf=[], n_feasible=0, div_assumed=0)
    for w in ws:
        if w.is_alive():
            w.kill()
    # ---- replay on the unpatched code
    jobs, kinds = [], []
    for n in names:
        r = results[n]
        for l, d, w in r['found']:
            jobs.append(dict(ob=n, values=w, seed=seed)), kinds.append(('cex', l, d))
        for l, d, w in r['exceptions']:
            jobs.append(dict(ob=n, values=w, seed=seed)), kinds.append(('exc', l, d))
        for w in r['witnesses']:
            jobs.append(dict(ob=n, values=w, seed=seed)), kinds.append(('wit', '', ''))
        if r['found'] or r['exceptions'] or r['unsupported'] or r['inconclusive']:
            # confirmation/fallback: more inputs within the bounds, on the real code
            jobs.append(dict(ob=n, values={}, seed=seed, tries=25)), kinds.append(('fallback', '', ''))
    cres = concrete(pid, jobs, nproc, max(30, t0 + limit - time.time()))
    viol, nonrep, validated, assume_fail, enc_mismatch = [], [], 0, 0, []
    fallback_runs = 0
    for job, kind, rr in zip(jobs, kinds, cres):
        last = rr[-1] if rr else {'status': 'error', 'detail': 'no result'}
        if last['status'] in ('fail', 'raise'):
            viol.append((job['ob'], kind, last))
        elif kind[0] == 'wit':
            if last['status'] == 'pass':
                validated += 1
            elif last['status'] == 'assume':
                assume_fail += 1
            else:
                nonrep.append((job['ob'], kind, last))
        elif kind[0] == 'fallback':
            fallback_runs += sum(1 for x in rr if x['status'] == 'pass')
        elif kind[0] == 'cex':
            nonrep.append((job['ob'], kind, last))
        else:
            nonrep.append((job['ob'], kind, last))
    known = known_findings(pid)
    open_viol, known_hit = [], {}
    for v in viol:
        k = match_known(known, v)
        if k is None:
            open_viol.append(v)
        else:
            known_hit[k['id']] = k
    # obligations decided
    status = {}
    violated = {v[0] for v in viol}
    unknown_obs = []
    spurious = []
    for n in names:
        r = results[n]
        if n in violated:
            status[n] = 'violated'
        elif r['found']:
            status[n] = 'spurious counterexample'
            spurious.append(n)
        elif r['exceptions'] or r['unsupported'] or r['inconclusive'] or r['status'] != 'held':
            status[n] = 'inconclusive'
            unknown_obs.append(n)
        elif r['n_feasible'] == 0:
            status[n] = 'vacuous'
            unknown_obs.append(n)
        else:
            status[n] = 'held'
    tot = {}
    for r in results.values():
        for k, v in (r['stats'] or {}).items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results.values() for f in r['functions']))
    samples = []
    for n in names[:]:
        for w in results[n]['witnesses'][:1]:
            if len(samples) < 6:
                samples.append({'obligation': n, 'path_witness': {k: v[:12] for k, v in w.items()}})
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=tot.get('paths', 0) - tot.get('infeasible_paths', 0),
        transitions=tot.get('forks', 0),
        traces_validated_against_impl=validated,
        samples=samples,
        explanation='bounded symbolic execution of the current sources; states = feasible symbolic paths explored to the end, '
                    'transitions = branch decisions put to the solver, traces validated = solver path witnesses replayed on the unpatched code',
        bounds=reg.bounds,
        obligations=len(names), obligations_held=sum(s == 'held' for s in status.values()),
        obligations_not_decided={n: (results[n]['unsupported'] + results[n]['inconclusive'] + [e[1] for e in results[n]['exceptions']])[:4] for n in unknown_obs},
        assertions_checked=tot.get('checks', 0), assertions_discharged=tot.get('discharged', 0),
        solver=dict(name='z3 ' + _z3v(), queries=tot.get('queries', 0), sat=tot.get('sat', 0), unsat=tot.get('unsat', 0), unknown=tot.get('unknown', 0), seconds=round(tot.get('solver_s', 0), 2)),
        functions_encoded=funcs, fallback_concrete_runs=fallback_runs,
        uninterpreted=sorted(set(u for r in results.values() for u in r['uf'])),
        witnesses_outside_float_assumptions=assume_fail,
        per_obligation={n: dict(status=status[n], paths=results[n]['stats'].get('paths', 0), queries=results[n]['stats'].get('queries', 0), wall_s=round(results[n]['wall_s'], 2)) for n in names}),
        assumptions=reg.assumptions + BASE_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(open_viol))
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d/%d obligations held, %d paths, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, %d witnesses replayed, wall %.1fs' % (
        pid, tier, sum(s == 'held' for s in status.values()), len(names), tot.get('paths', 0), tot.get('queries', 0), tot.get('unsat', 0),
        tot.get('sat', 0), tot.get('unknown', 0), tot.get('solver_s', 0), validated, wall))
    for n in unknown_obs:
        print('INCONCLUSIVE obligation=%s %s' % (n, '; '.join((results[n]['unsupported'] + results[n]['inconclusive'] + [e[1] for e in results[n]['exceptions']])[:3])))
        if results[n].get('error'):
            print(results[n]['error'])
    if '-v' in argv:
        for n in names:
            r = results[n]
            print('   %-60s %-12s paths=%-5s q=%-6s checks=%-5s %.1fs' % (n, status[n], r['stats'].get('paths'), r['stats'].get('queries'), r['stats'].get('checks'), r['wall_s']))
    if open_viol:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, kind, last in open_viol:
            key = (n, last.get('label'))
            if key in seen:
                continue
            seen.add(key)
            fn = os.path.join(rd, '%s-%d.json' % (pid, len(seen)))
            with open(fn, 'w') as f:
                json.dump(dict(property=pid, jobs=[dict(ob=n, values=last.get('values') or {}, seed=seed)], observed=last,
                               source=kind, run='cd /verif && ./replay.sh ' + fn), f, indent=1, default=str)
            print('  violated obligation=%s assertion=%s (%s) %s' % (n, last.get('label'), kind[0], last.get('detail', '')))
            print('VIOLATION property=%s replay=%s' % (pid, fn))
            if len(seen) >= 10:
                break
        return 1
    if spurious:
        for n in spurious:
            print('INCONCLUSIVE counterexample does not replay on the real code: obligation=%s labels=%s' % (n, [x[0] for x in results[n]['found']][:3]))
            for v in nonrep:
                if v[0] == n:
                    print('    replay: %s %s' % (v[2].get('status'), str(v[2].get('detail', ''))[-300:]))
                    break
    if names and len(unknown_obs) + len(spurious) == len(names):
        print('ERROR nothing was decided')
        return 2
    return 0


BASE_ASSUMPTIONS = [
    'floating point is read as exact real arithmetic (float constants denote the simple rational they round); differences below the stated tolerance are not distinguished',
    'integers are mathematical integers unless an array is concrete, in which case the real numpy dtype arithmetic runs',
    'divisors that are symbolic are assumed nonzero, radicands nonnegative (generic position)',
    'numpy structural routines, numpy_indexed and scipy C kernels run for real on concrete data or on order-isomorphic integer keys; linear ndimage kernels are encoded by their action on the basis',
]


def _z3v():
    import z3
    return z3.get_version_string()


def _alive(p):
    try:
        with open('/proc/%d/stat' % p) as f:
            return f.read().rsplit(')', 1)[1].split()[0] != 'Z'
    except OSError:
        return False


def match_known(known, v):
    import re
    n, kind, last = v
    for k in known:
        if re.fullmatch(k['obligation'], n) and re.fullmatch(k['assertion'], str(last.get('label'))):
            return k
    return None
