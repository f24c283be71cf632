"""check.py PROPERTY [--tier quick|thorough] [--job NAME] [-v]

Decides one property: every job explores a harness symbolically over the instrumented
current source of /repo, z3 decides feasibility of each branch and each obligation, and every
counterexample is replayed on the real code before it is reported."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def work(job):
    sys.setrecursionlimit(6000)
    from sym.driver import run_job
    try:
        return run_job(job)
    except BaseException as e:      # noqa
        import traceback
        return dict(job=job['name'], violations=[], undecided=[], complete=False, samples=[],
                    traces_ok=0, traces_bad=[], error=traceback.format_exc(), labels={},
                    stats={}, functions=[], wall=0, loopcut=0, mustfork={})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    import jobs as J
    prop = a.prop
    alljobs = J.jobs_for(prop, tier)
    if a.job:
        alljobs = [j for j in alljobs if a.job in j['name']]
    total = 660 if tier == 'quick' else 14000
    for j in alljobs:
        j.setdefault('budget', 300 if tier == 'quick' else 7000)
    results = []
    violation = None
    with mp.get_context('fork').Pool(min(a.j, max(1, len(alljobs))), maxtasksperchild=4) as pool:
        it = pool.imap_unordered(work, sorted(alljobs, key=lambda j: -j.get('weight', 1)))
        for _ in range(len(alljobs)):
            try:
                r = it.next(timeout=max(1, total - (time.time() - t0)))
            except mp.TimeoutError:
                break
            results.append(r)
            if a.v:
                st = r.get('stats') or {}
                print('  %-44s %6.1fs paths=%s forks=%s merges=%s q=%s solver=%.1fs obl=%s/%s '
                      'complete=%s ok=%s bad=%s und=%s' % (
                          r['job'], r['wall'], st.get('paths'), st.get('forks'), st.get('merges'),
                          st.get('queries'), st.get('solver_s', 0), st.get('discharged'),
                          st.get('obligations'), r['complete'], r['traces_ok'],
                          len(r['traces_bad']), len(r['undecided'])), flush=True)
                if r['error']:
                    print(r['error'])
                for u in r['undecided'][:3]:
                    print('    undecided', u)
                for u in r['traces_bad'][:2]:
                    print('    trace mismatch', json.dumps(u)[:1500])
                if os.environ.get('SHOW_MUSTFORK'):
                    print('    mustfork', r.get('mustfork'))
            if r['violations']:
                violation = r['violations'][0]
                break
        pool.terminate()
    return report(prop, tier, alljobs, results, violation, t0)


def report(prop, tier, alljobs, results, violation, t0):
    import jobs as J
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    tot = {}
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            tot[k] = max(tot.get(k, 0), v) if k == 'max_ticks' else tot.get(k, 0) + v
    errors = [r for r in results if r['error']]
    undec = [u for r in results for u in r['undecided']]
    bad = [u for r in results for u in r['traces_bad']]
    incomplete = [r['job'] for r in results if not r['complete'] and not r['error']
                  and not r['violations']]
    notrun = [j['name'] for j in alljobs if j['name'] not in {r['job'] for r in results}]
    funcs = sorted({f for r in results for f in r['functions']})
    vac = [r['job'] for r in results if r['complete'] and not r['violations'] and
           not (r.get('stats') or {}).get('obligations')]
    cov = dict(
        states=tot.get('paths', 0),
        transitions=tot.get('forks', 0) + tot.get('merges', 0),
        traces_validated_against_impl=sum(r['traces_ok'] for r in results),
        samples=[dict(job=r['job'], inputs=s) for r in results for s in r['samples']][:6],
        explanation=("bounded symbolic execution of the real source; states = completed symbolic "
                     "paths, transitions = symbolic branch decisions (forked or merged)"),
        functions_encoded=funcs,
        bounds={j['name']: j.get('bounds', '') for j in alljobs},
        jobs=[dict(name=r['job'], complete=r['complete'], wall_s=round(r['wall'], 2),
                   paths=(r.get('stats') or {}).get('paths'),
                   obligations=(r.get('stats') or {}).get('obligations'),
                   solver_s=round((r.get('stats') or {}).get('solver_s', 0), 2))
              for r in results],
        queries=tot.get('queries', 0), solver_time_s=round(tot.get('solver_s', 0.0), 2),
        obligations=tot.get('obligations', 0), discharged=tot.get('discharged', 0),
        infeasible_paths=tot.get('infeasible', 0), forks=tot.get('forks', 0),
        merges=tot.get('merges', 0), values_enumerated_at_boundaries=tot.get('concretised', 0),
        longest_loop_count=tot.get('max_ticks', 0),
        undecided=undec[:20], undecided_count=len(undec), incomplete_jobs=incomplete,
        jobs_not_run=notrun, encoding_mismatches=bad[:5], encoding_mismatch_count=len(bad),
        job_errors=[dict(job=r['job'], error=r['error'][-1500:]) for r in errors],
        vacuous_jobs=vac, exhaustive=not (undec or incomplete or errors or notrun))
    evd = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
               level='model_checking', coverage=cov, assumptions=J.assumptions_for(prop),
               wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1, default=str)
    for line in J.known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, line))
    if violation:
        path = os.path.join(ev, 'replays', '%s.json' % prop)
        violation['property'] = prop
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        print('counterexample: %s/%s %s' % (violation['module'], violation['func'],
                                            violation['label']))
        print('  inputs %s' % json.dumps(violation['inputs'])[:600])
        print('  real code: %s' % (violation.get('observed'),))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for u in undec[:10]:
        print('INCONCLUSIVE (not counted as discharged): %s' % json.dumps(u, default=str)[:400])
    for n in incomplete + notrun:
        print('INCOMPLETE: %s did not finish within its budget' % n)
    for r in errors:
        print('ERROR in %s: %s' % (r['job'], r['error'].strip().splitlines()[-1]))
    if bad:
        print('ENCODING MISMATCH: %s' % json.dumps(bad[0])[:600])
    if vac:
        print('VACUOUS: %s' % vac)
    print('%s %s: %d jobs, %d paths, %d/%d obligations discharged, %d queries, solver %.1fs, '
          '%d witness traces agree with the real code, wall %.1fs' % (
              prop, tier, len(results), tot.get('paths', 0), tot.get('discharged', 0),
              tot.get('obligations', 0), tot.get('queries', 0), tot.get('solver_s', 0),
              cov['traces_validated_against_impl'], time.time() - t0))
    if len(errors) == len(alljobs) or not tot.get('discharged', 0) or (
            errors and os.environ.get('VERIF_STRICT')):
        print('nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
