"""Run every harness of a property: proof on the symbolic back end, replay and bounded search on the
concrete one; write the evidence; report."""
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


CALL = re.compile(r'^[\w.<>]*<(locals|lambda)>[\w.<>]*\(\) (takes|got|missing)')


class H:
    """One harness = one contract set.  sym: run the deductive proof; conc: number of concrete runs."""

    def __init__(self, name, fn, sym=True, conc=150, functions=(), budget=200.0, max_paths=3000, raises_ok=False,
                 covers=(), prove_timeout=15000, branch_timeout=1500, total_division=False, prefixes=('gnome',), conc_budget=40.0,
                 thorough=6, note='', native_init=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


def clean(v):
    from fractions import Fraction
    if isinstance(v, Fraction):
        return float(v) if v.denominator != 1 else int(v)
    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    if hasattr(v, 'item'):
        return v.item()
    return v


def run_symbolic(h, q):
    try:
        from . import engine, backend, terms
        thorough = os.environ.get('VERIF_TIER') == 'thorough'
        ex = engine.Explorer(max_paths=h.max_paths, time_budget=h.budget * (1.5 if thorough else 1), branch_timeout=h.branch_timeout,
                             prove_timeout=h.prove_timeout * (3 if thorough else 1))

        def mk(c):
            c.total_division = h.total_division
            B = backend.Symbolic(c)
            B.setup_modules(h.prefixes)
            return B
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ex.run(h.fn, mk)
        out = dict(paths=ex.paths, solver_time=ex.solver_time, undecided=ex.undecided[:20],
                   exceptions=ex.path_exceptions[:10], reached=sorted(ex.reached),
                   obls=[(o.name, o.status, o.backend, o.time, o.detail if o.status != 'discharged' else '',
                          o.values if o.status == 'refuted' else None) for o in ex.obls])
    except BaseException as e:                                     # noqa
        out = dict(paths=0, solver_time=0, undecided=['engine error: %r %s' % (e, traceback.format_exc()[-1500:])],
                   exceptions=[], reached=[], obls=[])
    q.put(out)


def one_concrete(h, values, rng):
    """-> (status, detail, backend)"""
    from . import backend
    import numpy as np
    B = backend.Concrete(values, rng)
    import warnings
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h.fn(B)
        return 'ok', '', B
    except backend.Discard:
        return 'discard', '', B
    except backend.Failed as f:
        return 'failed', '%s %s' % (f.name, f.detail), B
    except Exception as e:                                         # noqa
        if h.raises_ok:
            return 'discard', repr(e), B
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1] if tb else None
        inhar = last is not None and ('/props/' in last.filename or '/pyvc/' in last.filename)
        if h.sym and (isinstance(e, AttributeError) and str(getattr(e, 'name', '') or '').startswith('_')
                      or isinstance(e, TypeError) and CALL.match(str(e))):
            inhar = True        # the code keeps its private state, or calls its helpers, otherwise than this contract set assumes
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
        return ('error' if inhar else 'raised'), '%s: %s @ %s' % (type(e).__name__, e, last), B
    finally:
        B.cleanup()


def run_concrete(h, models, n, seed, budget, q):
    """replay the models first, then bounded random search"""
    res = dict(replayed=[], tried=0, ok=0, discard=0, proved=0, fail=None, covers=[], errors=[], distinct=0)
    try:
        for name, vals in models:
            if not vals or '__error__' in vals:
                continue
            st, d, B = one_concrete(h, vals, random.Random(seed))
            res['replayed'].append((name, st, d))
            if st in ('failed', 'raised'):
                res['fail'] = dict(obligation=name, status=st, detail=d, inputs=clean(B.log), source='counter-model replay')
                q.put(res)
                return
        t0 = time.time()
        seen = set()
        cov = set()
        k = 0
        while res['ok'] < n and k < n * 6 and time.time() - t0 < budget:
            k += 1
            st, d, B = one_concrete(h, None, random.Random('%s/%s/%d' % (seed, h.name, k)))
            res['tried'] += 1
            cov |= B.covers
            if st == 'ok':
                res['ok'] += 1
                res['proved'] += B.proved
                seen.add(hash(json.dumps(clean(B.log), sort_keys=True, default=str)))
                if res['ok'] <= 1:
                    res['sample'] = clean(B.log)
            elif st == 'discard':
                res['discard'] += 1
            elif st == 'error':
                res['errors'].append(d)
                if len(res['errors']) > 20:
                    break
            else:
                res['fail'] = dict(obligation=d.split(' ')[0] if st == 'failed' else 'no-exception', status=st, detail=d,
                                   inputs=clean(B.log), source='bounded search, trial %d seed %s' % (k, seed))
                break
        res['covers'] = sorted(cov)
        res['distinct'] = len(seen)
        res['errors'] = res['errors'][:5]
    except BaseException as e:                                     # noqa
        res['errors'].append('%r %s' % (e, traceback.format_exc()[-1500:]))
    q.put(res)


def spawn(target, args, timeout):
    q = mp.Queue()
    p = mp.Process(target=target, args=args + (q,))
    p.start()
    return p, q, time.time() + timeout


def drive(harnesses, seed, tier):
    """scheduler over processes"""
    results = {h.name: {} for h in harnesses}
    mult = 1
    jobs = []
    for h in harnesses:
        if h.sym:
            jobs.append((h, 'sym'))
    for h in harnesses:
        if not h.sym:
            jobs.append((h, 'conc'))
    running = []
    ncpu = min(8, os.cpu_count() or 4)
    while jobs or running:
        while jobs and len(running) < ncpu:
            h, kind = jobs.pop(0)
            if kind == 'sym':
                lim = h.budget * (1.5 if tier == 'thorough' else 1) + 60
                running.append((h, kind) + spawn(run_symbolic, (h,), lim))
            else:
                r = results[h.name].get('sym')
                models = []
                if r:
                    per = {}
                    for o in r['obls']:
                        if o[1] == 'refuted' and per.get(o[0], 0) < 4:
                            per[o[0]] = per.get(o[0], 0) + 1
                            models.append((o[0], o[5]))
                    for e in r['exceptions']:
                        models.append(('no-exception ' + e[0], e[2]))
                k = h.thorough if tier == 'thorough' else 1
                bud = h.conc_budget * k
                running.append((h, kind) + spawn(run_concrete, (h, models, h.conc * k, seed, bud), bud + 60))
        time.sleep(0.05)
        for item in list(running):
            h, kind, p, q, dl = item
            out = None
            try:
                out = q.get_nowait()
            except Exception:                                      # noqa
                pass
            if out is None and not p.is_alive():
                try:
                    out = q.get(timeout=1)
                except Exception:                                  # noqa
                    out = {'crash': 'worker died, exit %s' % p.exitcode, 'code': p.exitcode}
            if out is None and time.time() > dl:
                p.kill()
                out = {'crash': 'worker timeout'}
            if out is not None:
                p.join(timeout=5)
                if p.is_alive():
                    p.kill()
                running.remove(item)
                if 'crash' in out:
                    if kind == 'sym':
                        out = dict(paths=0, solver_time=0, undecided=[out['crash']], exceptions=[], reached=[], obls=[])
                    else:
                        fail = None
                        if out.get('code') in (-11, -6, -8, -4, -7):    # native code crashed on a generated input
                            fail = dict(obligation='no-crash', status='crashed', detail='native crash, signal %d' % -out['code'], inputs={},
                                        source='bounded search (re-run with --only to reproduce)')
                        out = dict(replayed=[], tried=0, ok=0, discard=0, proved=0, fail=fail, covers=[], errors=[out['crash']], distinct=0)
                results[h.name][kind] = out
                if kind == 'sym':
                    jobs.insert(0, (h, 'conc'))
    return results


def main():
    pid = sys.argv[1]
    only = [a.split('=', 1)[1] for a in sys.argv[2:] if a.startswith('--only=')]
    verbose = '-v' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a.split('=')[1]
            os.environ['VERIF_TIER'] = tier
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('props.' + pid.lower())
    hs = [h for h in mod.HARNESSES if not only or h.name in only]
    res = drive(hs, seed, tier)
    findings = load_findings(pid)
    viol, known, und = [], [], []
    nob = ndis = 0
    backends, stime, funcs = {}, 0.0, []
    per = {}
    samples = []
    for h in hs:
        r = res[h.name]
        s, c = r.get('sym'), r.get('conc')
        info = dict(mode='proof' if h.sym else 'bounded', functions=list(h.functions))
        funcs += list(h.functions)
        if s:
            obls = s['obls']
            nob += len(obls)
            ndis += sum(1 for o in obls if o[1] == 'discharged')
            for o in obls:
                backends[o[2]] = backends.get(o[2], 0) + 1
            stime += s['solver_time']
            info.update(paths=s['paths'], obligations=len(obls), discharged=sum(1 for o in obls if o[1] == 'discharged'),
                        solver_s=round(s['solver_time'], 2), undecided=s['undecided'],
                        names=sorted(set(o[0] for o in obls)))
            if s['undecided']:
                und.append('%s: %s' % (h.name, '; '.join(map(str, s['undecided'][:3]))))
            unk = [o[0] for o in obls if o[1] == 'unknown']
            if unk:
                und.append('%s: solver unknown on %s' % (h.name, sorted(set(unk))))
            if not obls and not s['undecided']:
                und.append('%s: zero obligations (vacuous)' % h.name)
            need = set(h.covers) | ({'end'} if not s['undecided'] else set())
            miss = need - set(s['reached'])
            if miss and not s['undecided']:
                und.append('%s: contract vacuous, not reached: %s' % (h.name, sorted(miss)))
        if c:
            info.update(concrete_runs=c['ok'], concrete_assertions=c['proved'], discarded=c['discard'], replayed=c['replayed'],
                        concrete_errors=c['errors'], concrete_covers=c['covers'])
            if c.get('sample') and len(samples) < 4:
                samples.append({h.name: c['sample']})
            if c['errors']:
                und.append('%s: concrete harness error %s' % (h.name, c['errors'][:1]))
            if c['fail']:
                viol.append((h, c['fail'], True, s))
        if s and not (c and c['fail']):
            ref = [o for o in s['obls'] if o[1] == 'refuted']
            if ref:
                viol.append((h, dict(obligation=ref[0][0], status='refuted', detail=ref[0][4], inputs=clean(ref[0][5]),
                                     source='solver model, not reproduced on the real code'), False, s))
            elif s['exceptions'] and not h.raises_ok:
                und.append('%s: exception only in the symbolic run: %s' % (h.name, s['exceptions'][0][:2]))
        per[h.name] = info
    out_viol = []
    for h, f, conf, s in viol:
        k = match(findings, h.name, f)
        if k:
            known.append((k, h, f))
        else:
            out_viol.append((h, f, conf, s))
    evs = sum(i.get('concrete_runs', 0) for i in per.values())
    ev = dict(property=pid, tier=tier, seed=int(seed), level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='python3 check.py %s' % pid,
                  trusted_base=list(getattr(mod, 'TRUSTED', [])) + TRUSTED,
                  functions_under_contract=sorted(set(funcs)), backends=backends, solver_s=round(stime, 2),
                  undecided=und, harnesses=per,
                  evaluations=evs, distinct_nontrivial=sum((res[h.name].get('conc') or {}).get('distinct', 0) for h in hs),
                  rule='each concrete run draws every contract input at random (seeded) and executes the real code with the same '
                       'contract as run-time assertions; runs whose precondition fails are discarded and not counted',
                  samples=samples or ['none'],
                  explanation='obligations generated by executing the functions of /repo on symbolic values; '
                              'harnesses with mode=bounded are stand-ins and are not counted as proved'),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + ASSUME, wall_s=round(time.time() - t0, 2), violations=len(out_viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if verbose:
        for h in hs:
            i = per[h.name]
            print(h.name, {k: v for k, v in i.items() if k not in ('functions', 'names')})
            s = res[h.name].get('sym')
            if s:
                for e in s['exceptions'][:3]:
                    print('   EXC', e[:2])
                for o in s['obls']:
                    if o[1] != 'discharged':
                        print('   ', o[1], o[0], o[4][:300], clean(o[5]) if o[5] else '')
    for u in und:
        print('UNDECIDED-BY-PROOF (bounded stand-in ran): %s' % u)
    for k, h, f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d obligations, %d discharged, %d concrete runs, solver %.1fs, wall %.1fs' % (pid, nob, ndis, evs, stime, time.time() - t0))
    if hs and nob == 0 and evs == 0 and not out_viol:
        print('nothing was checked')
        return 3
    if out_viol:
        # a confirmed failing input first
        out_viol.sort(key=lambda v: not v[2])
        h, f, conf, s = out_viol[0]
        rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
        with open(rp, 'w') as fh:
            json.dump(dict(property=pid, harness=h.name, functions=list(h.functions), failure=f, confirmed_on_real_code=conf,
                           how='python3 check.py %s --only=%s' % (pid, h.name),
                           others=[dict(harness=a.name, failure=b, confirmed=c) for a, b, c, _ in out_viol[1:6]],
                           verifier_output=[o[:5] for o in (s or {'obls': []})['obls'] if o[1] != 'discharged'][:20]),
                      fh, indent=1, default=str)
        print('failed: harness %s, %s: %s' % (h.name, f['status'], f['detail'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if conf else ' no-failing-input-found'))
        return 1
    return 0


ASSUME = ['floating-point arithmetic is treated as exact real arithmetic in proofs (rounding, inf and nan are outside the proof; '
          'the concrete runs use the real floats)',
          'machine integers are treated as mathematical integers',
          'symbolic numpy semantics (pyvc/arrays.py) agree with numpy on the operations used; cross-checked by running the same '
          'contracts concretely on real numpy',
          'exp/log/sqrt/pow/sin/cos are uninterpreted functions with the sound axioms in pyvc/terms.py']
TRUSTED = ['z3 (and cvc5 where named as back end)', 'CPython', 'pyvc symbolic executor (this directory)',
           'harness/stubs/gridded: stand-in for the absent third-party package gridded']


def load_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def match(findings, hname, f):
    for k in findings:
        if k['harness'] == hname and f['obligation'].startswith(k['obligation']) and k.get('detail', '') in f['detail']:
            return k['what']
    return None


if __name__ == '__main__':
    sys.exit(main())
