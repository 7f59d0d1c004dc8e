"""Runner:  python -m marxsvc.run P03 [--tier quick|thorough]
            python -m marxsvc.run --replay FILE

Exit 0: every obligation generated from /repo's current source was discharged
(and every bounded stand-in passed).  Exit 1 with a VIOLATION line otherwise."""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'marxsvc.run'] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from marxsvc import load                                   # noqa: E402
import numpy as np                                         # noqa: E402

np.seterr(all='ignore')

GLOBAL_DEADLINE = [None]


def repo_frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        out.append((f.filename, f.lineno, f.name, f.line))
    return out


def where(tb):
    fr = repo_frames(tb)
    for f in reversed(fr):
        if f[0].startswith(load.REPO):
            return '%s:%d in %s' % (os.path.relpath(f[0], load.REPO), f[1], f[2])
    return '%s:%d' % (fr[-1][0], fr[-1][1]) if fr else '?'


# ------------------------------------------------------------------ concrete

def run_concrete(c, seed, trial, over=None, rows=None, trace=None):
    """-> (status, detail, inputs, nchecks)   status ok|rejected|violation|error"""
    from marxsvc.conc import ConcCtx, Rejected, ContractViolation
    ctx = ConcCtx(seed, trial, over, rows)
    try:
        if trace is not None:
            def prof(frame, ev, arg):
                if ev == 'call':
                    fn = frame.f_code.co_filename
                    if fn.startswith(load.REPO + '/marxs'):
                        trace.add(os.path.relpath(fn, load.REPO) + ':' + frame.f_code.co_qualname)
            sys.setprofile(prof)
        try:
            with np.errstate(all='ignore'):
                c.fn(ctx)
        finally:
            if trace is not None:
                sys.setprofile(None)
            ctx.__exit__()
    except Rejected:
        return 'rejected', '', ctx.inputs, 0
    except ContractViolation as e:
        return 'violation', '%s (%s)' % (e.name, e.detail), ctx.inputs, ctx.checked
    except Exception as e:
        fr = repo_frames(e.__traceback__)
        inrepo = any(f[0].startswith(load.REPO) for f in fr)
        if inrepo:
            return 'violation', 'unexpected %s: %s at %s' % (type(e).__name__, str(e)[:200], where(e.__traceback__)), ctx.inputs, ctx.checked
        return 'error', '%s: %s at %s' % (type(e).__name__, e, fr[-1] if fr else ''), ctx.inputs, ctx.checked
    return 'ok', '', ctx.inputs, ctx.nonvac


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def concrete_phase(c, seed, trials, secs, trace=None, start=0):
    t0 = time.time()
    n = acc = 0
    errs = []
    sample = None
    for k in range(start, start + trials):
        if time.time() - t0 > secs:
            break
        st, det, inp, chk = run_concrete(c, seed, k, trace=trace if n < 6 else None)
        n += 1
        if st == 'ok' and chk:
            acc += 1
            if sample is None:
                sample = {'trial': k, 'inputs': jsonable({a: b for a, b in list(inp.items())[:4]})}
        elif st == 'violation':
            return {'n': n, 'acc': acc, 'fail': {'seed': seed, 'trial': k, 'detail': det, 'inputs': jsonable(inp)}, 'errs': errs, 'sample': sample}
        elif st == 'error':
            errs.append(det)
    return {'n': n, 'acc': acc, 'fail': None, 'errs': errs, 'sample': sample}


# ------------------------------------------------------------------ symbolic

def model_inputs(model, path):
    """solver model -> overrides for a concrete run"""
    rows = {}
    vals = {}
    for t, v in model.items():
        if t.op != 'var':
            continue
        name, row, idx, sort = t.args
        if row is not None:
            base = row.args[0].split('#')[0].split('$')[0]
            rows.setdefault(base, set()).add(row.args[0])
        vals.setdefault(name, []).append((row.args[0] if row is not None else None, idx, v))
    order = {b: sorted(r) for b, r in rows.items()}
    over = {}
    for name, L in vals.items():
        if name.startswith('choice:'):
            continue
        ridx = None
        shape = ()
        anyrow = [r for r, _, _ in L if r is not None]
        if anyrow:
            base = anyrow[0].split('#')[0].split('$')[0]
            shape = (len(order[base]),)
        nd = len(L[0][1])
        ishape = tuple(max(i[k] for _, i, _ in L) + 1 for k in range(nd))
        if anyrow and nd and ishape[0] == 1:
            # the payload index of the symbolic axis
            ishape = (shape[0],) + ishape[1:]
            a = np.zeros(ishape)
            for r, i, v in L:
                a[(order[base].index(r),) + tuple(i[1:])] = v
        else:
            a = np.zeros(ishape)
            for r, i, v in L:
                a[tuple(i)] = v
        over[name] = a
    ch = {}
    for h in path:
        pos = h.op != 'not'
        a = h if pos else h.args[0]
        if a.op == 'var' and a.args[0].startswith('choice:'):
            _, nm, i = a.args[0].split(':')
            if pos:
                ch[nm] = int(i)
            else:
                ch.setdefault(nm, int(i) + 1)
                if ch[nm] <= int(i):
                    ch[nm] = int(i) + 1
    for k, v in ch.items():
        over['choice:' + k] = v
    return over, {b: len(o) for b, o in order.items()}


def symbolic_phase(c, tier):
    from marxsvc import solve, terms as tm
    from marxsvc.ctx import SymCtx, PathInfeasible, StopContract
    from marxsvc.terms import Unsupported
    from marxsvc.symarr import ShapeError
    for k in solve.STATS:
        solve.STATS[k] = 0
    todo = [[]]
    obs = []
    unsup = []
    npaths = 0
    infeas = 0
    while todo:
        if npaths >= c.max_paths:
            unsup.append('path limit %d reached' % c.max_paths)
            break
        prefix = todo.pop()
        stop = False
        npaths += 1
        ctx = SymCtx(prefix, timeout=c.timeout if tier == 'quick' else 3 * c.timeout)
        if GLOBAL_DEADLINE[0] is not None:
            left = GLOBAL_DEADLINE[0] - time.time()
            if left < 5:
                unsup.append('out of time')
                break
            ctx.ob_timeout = min(ctx.ob_timeout, left)
        with ctx:
            ctx.np = load.shims()['np']
            try:
                with load.installed():
                    c.fn(ctx)
            except PathInfeasible:
                infeas += 1
                todo.extend(ctx.pending)
                continue
            except StopContract:
                stop = True
            except Unsupported as e:
                unsup.append('%s at %s' % (e, where(e.__traceback__)))
            except Exception as e:
                fr = repo_frames(e.__traceback__)
                last = fr[-1][0] if fr else ''
                msg = 'no exception (%s: %s at %s)' % (type(e).__name__, str(e)[:160], where(e.__traceback__))
                genuine = last.startswith(load.REPO) or isinstance(e, ShapeError)
                if isinstance(e, (AttributeError, TypeError)) and not isinstance(e, (ShapeError,)):
                    genuine = False
                inrepo = any(f[0].startswith(load.REPO) for f in fr)
                if not inrepo:
                    unsup.append('engine: ' + msg + ' | ' + '; '.join('%s:%d' % (os.path.basename(f[0]), f[1]) for f in fr[-4:]))
                else:
                    r = ctx.prover.prove(ctx.hyps(), tm.FALSE)
                    if r:
                        infeas += 1
                    elif genuine:
                        ctx.record(msg, tm.FALSE, solve.Result('sat', 'execution', r.model, True))
                    else:
                        unsup.append(msg)
            for o in ctx.obs:
                over = None
                if o.status != 'proved' and o.model:
                    try:
                        over = model_inputs(o.model, ctx.path)
                    except Exception:
                        over = None
                obs.append({'name': o.name, 'status': o.status, 'backend': o.backend, 's': round(o.time, 3),
                            'why': o.why, 'abstracted': bool(o.abstracted),
                            'goal': (tm.show(o.goal, 8)[:1500] if o.status != 'proved' else None),
                            'over': over, 'path': len(ctx.path)})
            todo.extend(ctx.pending)
            if stop or sum(o['status'] != 'proved' for o in obs) >= 3:
                break
    return {'obs': obs, 'unsupported': unsup, 'paths': npaths, 'infeasible': infeas,
            'stats': dict(solve.STATS)}


def verify(args):
    idx, tier, seed = args
    from marxsvc.contract import CONTRACTS
    c = CONTRACTS[idx]
    out = {'contract': c.name, 'prop': c.prop, 'doc': c.doc, 'bounded': c.bounded, 'sizes': c.sizes, 'assumes': list(c.assumes)}
    t0 = time.time()
    trace = set()
    if c.conc:
        k = 1 if tier == 'quick' else 8
        out['conc'] = concrete_phase(c, seed, c.trials * k, c.conc_s * k, trace)
    else:
        out['conc'] = {'n': 0, 'acc': 0, 'fail': None, 'errs': [], 'sample': None}
    out['functions'] = sorted(trace)
    out['sym'] = None
    if not c.bounded and out['conc']['fail'] is None:
        try:
            out['sym'] = symbolic_phase(c, tier)
        except Exception as e:
            out['sym'] = {'obs': [], 'unsupported': ['engine failure: %s %s' % (type(e).__name__, traceback.format_exc()[-600:])],
                          'paths': 0, 'infeasible': 0, 'stats': {}}
        bad = [o for o in out['sym']['obs'] if o['status'] != 'proved']
        if (bad or out['sym']['unsupported']) and c.conc:
            # counterexample: solver model first, then directed random search
            for o in bad:
                if o['over'] is None:
                    continue
                over, rows = o['over']
                for tr in range(6):
                    st, det, inp, _ = run_concrete(c, seed, tr, over, rows)
                    if st == 'violation':
                        out['conc']['fail'] = {'seed': seed, 'trial': tr, 'detail': det, 'inputs': jsonable(inp),
                                               'over': jsonable(over), 'rows': rows}
                        break
                if out['conc']['fail']:
                    break
            if not out['conc']['fail']:
                r = concrete_phase(c, seed, 4000, 25.0, None, start=c.trials)
                out['conc']['n'] += r['n']
                out['conc']['acc'] += r['acc']
                out['conc']['fail'] = r['fail']
                out['conc']['errs'] = out['conc']['errs'] + r['errs']
        for o in out['sym']['obs']:
            o.pop('over', None)
    elif c.bounded and out['conc']['fail'] is None:
        r = concrete_phase(c, seed, c.trials * (4 if tier == 'quick' else 40), c.conc_s * (2 if tier == 'quick' else 20), None, start=c.trials)
        out['conc']['n'] += r['n']
        out['conc']['acc'] += r['acc']
        out['conc']['fail'] = r['fail']
        out['conc']['errs'] = out['conc']['errs'] + r['errs']
    out['wall'] = round(time.time() - t0, 2)
    return out


def _child(job, conn):
    try:
        r = verify(job)
    except BaseException:
        r = {'engine': traceback.format_exc()[-600:]}
    conn.send(r)
    conn.close()


def _undecided(job, why):
    from marxsvc.contract import CONTRACTS
    c = CONTRACTS[job[0]]
    return {'contract': c.name, 'prop': c.prop, 'doc': c.doc, 'bounded': c.bounded, 'sizes': c.sizes, 'assumes': list(c.assumes),
            'conc': {'n': 0, 'acc': 0, 'fail': None, 'errs': [], 'sample': None}, 'functions': [], 'wall': 0,
            'sym': {'obs': [{'name': why, 'status': 'unknown', 'goal': None, 'why': why, 'backend': None, 's': 0, 'abstracted': False}],
                    'unsupported': [], 'paths': 0, 'infeasible': 0, 'stats': {}}}


def run_jobs(jobs, j, deadline):
    """one process per contract; a process that overruns is ended and its
    contract counts as not discharged"""
    cx = multiprocessing.get_context('fork')
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    live = {}
    while todo or live:
        while todo and len(live) < j:
            i = todo.pop(0)
            a, b = cx.Pipe(False)
            p = cx.Process(target=_child, args=(jobs[i], b))
            p.start()
            b.close()
            live[i] = (p, a)
        for i, (p, conn) in list(live.items()):
            done = None
            if conn.poll(0.02):
                try:
                    done = conn.recv()
                except EOFError:
                    done = {'engine': 'worker ended without an answer'}
            elif time.time() > deadline:
                p.kill()
                done = {'engine': 'not decided within the time limit'}
            if done is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                conn.close()
                del live[i]
                res[i] = done if 'engine' not in done else _undecided(jobs[i], done['engine'])
    return res


# ---------------------------------------------------------------- known list

def known():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split('|')[0].split())
                d['text'] = line.split('|', 1)[1].strip() if '|' in line else ''
                out.append(d)
    return out


TRUSTED = [
    'symbolic semantics of numpy array operations (marxsvc.npshim, marxsvc.symarr); cross-checked on every run by executing each contract on the unmodified code with real numpy',
    'symbolic semantics of astropy.table (marxsvc.table)',
    'symbolic semantics of astropy.units and astropy.coordinates (marxsvc.symq, marxsvc.symsky)',
    'floating point arithmetic treated as exact real arithmetic',
    'np.random draws: values within the documented support, otherwise arbitrary',
    'CPython interpreter executing the function bodies of /repo',
    'z3 5.x / cvc5 1.4 verdicts; rational normal form engine (marxsvc.poly)',
]


def selftest():
    """the engine, the solvers and every contract module load"""
    from marxsvc.solve import z3
    load.import_marxs()
    n = 0
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.startswith('p') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
            n += 1
    from marxsvc.contract import CONTRACTS
    print('marxsvc: %d contract modules, %d contracts, z3 %s' % (n, len(CONTRACTS), z3.get_version_string()))
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    GLOBAL_DEADLINE[0] = t0 + (600 if tier == 'quick' else 3000)
    ev = {'property': a.prop, 'tier': tier, 'seed': seed}
    load.import_marxs()
    evdir = os.environ.get('MARXSVC_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    try:
        importlib.import_module('contracts.' + a.prop.lower())
    except Exception:
        # the modules under contract do not import or the anchors are gone
        traceback.print_exc()
        print('contract module for %s could not be loaded against the current tree' % a.prop)
        rp = os.path.join(evdir, 'replay', '%s-load.json' % a.prop)
        json.dump({'property': a.prop, 'error': traceback.format_exc()}, open(rp, 'w'), indent=1)
        ev.update(level='other', coverage={'explanation': 'contracts could not be loaded: ' + traceback.format_exc()[-500:]}, wall_s=time.time() - t0, violations=1)
        json.dump(ev, open(os.path.join(evdir, a.prop + '.json'), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, os.path.relpath(rp, HERE)))
        return 1
    from marxsvc.contract import CONTRACTS
    idx = [i for i, c in enumerate(CONTRACTS) if c.prop == a.prop and (not a.only or a.only in c.name)]
    jobs = [(i, tier, seed) for i in idx]
    res = run_jobs(jobs, max(1, a.j), GLOBAL_DEADLINE[0] + 60)
    code = report(a.prop, tier, seed, res, ev, t0, a.v)
    return code


def report(prop, tier, seed, res, ev, t0, verbose):
    evdir = os.environ.get('MARXSVC_EVIDENCE') or os.path.join(HERE, 'evidence')
    nob = ndis = snob = sdis = 0
    backends = {}
    funcs = set()
    failures = []
    bounded, sized = [], []
    assum = set()
    kn = [k for k in known() if k.get('property') == prop]
    concn = acc = 0
    samples = []
    solver_s = 0.
    per = []
    errs = []
    knownhit = []
    for r in res:
        funcs.update(r['functions'])
        assum.update(r['assumes'])
        concn += r['conc']['n']
        acc += r['conc']['acc']
        if r['conc']['sample']:
            samples.append(dict(r['conc']['sample'], contract=r['contract']))
        if r['conc']['errs']:
            errs.append((r['contract'], r['conc']['errs'][0]))
        s = r['sym']
        nb = 0
        if s:
            solver_s += s['stats'].get('solver_s', 0) + s['stats'].get('quick_s', 0)
            for o in s['obs']:
                snob, nob = snob + bool(r['sizes']), nob + (not r['sizes'])
                if o['status'] == 'proved':
                    sdis, ndis = sdis + bool(r['sizes']), ndis + (not r['sizes'])
                    nb += 1
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
        bad = [o for o in (s['obs'] if s else []) if o['status'] != 'proved']
        uns = s['unsupported'] if s else []
        per.append({'contract': r['contract'], 'statement': r['doc'][:300], 'obligations': len(s['obs']) if s else 0,
                    'discharged': nb, 'paths': s['paths'] if s else 0, 'unsupported': uns[:3],
                    'bounded': r['bounded'] or r['sizes'] and 'sizes: ' + r['sizes'] or (('fell back to bounded check: ' + uns[0][:200]) if uns else None),
                    'concrete_runs': r['conc']['n'], 'wall_s': r['wall']})
        fail = r['conc']['fail']
        kmatch = [k for k in kn if k.get('contract') == r['contract']]
        if fail or bad:
            det = fail['detail'] if fail else bad[0]['name']
            km = [k for k in kmatch if k.get('obligation', '').replace('_', ' ') in det]
            if km:
                knownhit.append((km[0], det))
                bad2 = [o for o in bad if not any(k.get('obligation', '').replace('_', ' ') in o['name'] for k in kmatch)]
                if not bad2:
                    continue
                bad, fail = bad2, None
            failures.append((r, fail, bad))
        elif r['conc']['errs']:
            # the contract could not be evaluated for some input: the code gave something of
            # another form (unit, shape, type) than the contract is about
            failures.append((r, None, [{'name': 'contract could not be evaluated: %s' % r['conc']['errs'][0][:300], 'status': 'error', 'goal': None, 'why': '', 'backend': None, 's': 0, 'abstracted': False}]))
        elif uns or r['bounded']:
            bounded.append('%s: %s' % (r['contract'], r['bounded'] or uns[0][:200]))
            if r['conc']['acc'] == 0 and not (s and s['obs']):
                failures.append((r, None, [{'name': 'contract evaluated nothing (neither obligations nor accepted runs): %s' % (uns or r['conc']['errs'])[:1], 'status': 'vacuous', 'goal': None, 'why': '', 'backend': None, 's': 0, 'abstracted': False}]))
        elif s is not None and s['obs'] and r['sizes']:
            sized.append('%s: all values, but only for %s' % (r['contract'], r['sizes']))
        elif s is not None and not s['obs']:
            failures.append((r, None, [{'name': 'no obligations generated', 'status': 'vacuous', 'goal': None, 'why': '', 'backend': None, 's': 0, 'abstracted': False}]))
        if verbose:
            print('%-34s ob %3d/%3d paths %3d conc %d/%d %s %.1fs' % (
                r['contract'], nb, len(s['obs']) if s else 0, s['paths'] if s else 0, r['conc']['acc'], r['conc']['n'],
                'FAIL' if (fail or bad) else ('bounded' if (uns or r['bounded']) else 'ok'), r['wall']))
            for o in bad:
                print('     failed obligation: %s [%s %s] %s' % (o['name'], o['status'], o['why'], (o['goal'] or '')[:300]))
            for u in uns:
                print('     unsupported:', u[:600])
            if fail:
                print('     concrete failure:', fail['detail'], 'trial', fail['trial'])
            if r['conc']['errs']:
                print('     harness error:', r['conc']['errs'][0][:300])
    if errs and verbose:
        print('HARNESS ERRORS', errs)
    nbound = len(bounded)
    cov = {'obligations': nob, 'discharged': ndis,
           'checker_cmd': 'python -m marxsvc.run %s --tier %s' % (prop, tier),
           'trusted_base': TRUSTED + sorted(assum),
           'discharged_by_backend': backends, 'solver_seconds': round(solver_s, 2),
           'functions_under_contract': sorted(funcs),
           'contracts': per, 'bounded_standins': bounded,
           'size_bounded': {'obligations': snob, 'discharged': sdis, 'contracts': sized},
           'evaluations': concn, 'distinct_nontrivial': acc,
           'rule': 'concrete executions of the same contracts on the unmodified code (random, boundary and axis-aligned inputs, seeded by VERIF_SEED); non-trivial: preconditions met and at least one postcondition definitely true',
           'samples': samples[:3]}
    level = 'proof' if nob else 'other'
    cov['explanation'] = 'obligations/discharged are for all inputs and all array lengths; size_bounded ones are for all values but only for the stated sizes of the collections of elements, and are not counted as proved; bounded_standins are concrete runs only'
    ev.update(level=level, coverage=cov,
              assumptions=TRUSTED + sorted(assum) + ['bounded (not proved): ' + b for b in bounded + sized],
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
    for k, det in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('text') or det))
    print('%s: %d/%d obligations discharged, %d/%d for stated sizes (%s), %d contracts, %d bounded, %d concrete runs, %.1f s' % (
        prop, ndis, nob, sdis, snob, ', '.join('%s %d' % kv for kv in sorted(backends.items())), len(res), nbound, concn, time.time() - t0))
    code = 0
    for r, fail, bad in failures:
        rp = os.path.join(evdir, 'replay', '%s-%s.json' % (prop, r['contract']))
        json.dump(jsonable({'property': prop, 'contract': r['contract'], 'failed_obligations': bad, 'concrete': fail,
                            'functions': r['functions']}), open(rp, 'w'), indent=1)
        rel = os.path.relpath(rp, HERE)
        if fail:
            print('  contract %s: %s' % (r['contract'], fail['detail']))
            print('VIOLATION property=%s replay=%s' % (prop, rel))
        else:
            print('  contract %s: obligation not discharged: %s' % (r['contract'], bad[0]['name']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rel))
        code = 1
    return code


def replay(path):
    d = json.load(open(path))
    load.import_marxs()
    importlib.import_module('contracts.' + d['property'].lower())
    from marxsvc.contract import CONTRACTS
    c = [c for c in CONTRACTS if c.name == d['contract'] and c.prop == d['property']][0]
    f = d.get('concrete')
    if not f:
        print('no concrete input recorded; failed obligations:')
        for o in d['failed_obligations']:
            print('  ', o['name'], o['status'], o.get('goal'))
        return 1
    over = f.get('over')
    if over:
        over = {k: np.asarray(v) for k, v in over.items()}
    st, det, inp, _ = run_concrete(c, f['seed'], f['trial'], over, f.get('rows'))
    print(st, det)
    print(json.dumps(jsonable(inp))[:3000])
    return 1 if st == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main())
