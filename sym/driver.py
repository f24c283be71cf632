"""Runs one job (harness + parameters): explore all paths, decide every obligation, replay."""
import json
import os
import resource
import subprocess
import sys
import time
import traceback
import z3
from . import engine as E
from . import runtime as R
from . import loader as L
from .symctx import SymCtx, concof, same
from .values import zand, zor, znot

HERE = L.VERIF
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
_WORLD = None


def world():
    global _WORLD
    if _WORLD is None:
        _WORLD = L.World()
    return _WORLD


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def replay_batch(cases, timeout=60):
    """Run cases on the real code; a case that does not end is 'hang'."""
    out = []
    rest = list(cases)
    while rest:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=L.REPO)
        p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'replay.py'), '--batch'],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, preexec_fn=_limits, cwd=HERE)
        try:
            o, e = p.communicate(json.dumps(rest).encode(), timeout=timeout)
            hang = False
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            hang = True
        lines = [json.loads(x) for x in o.decode().splitlines() if x.startswith('{')]
        out += lines
        rest = rest[len(lines):]
        if rest:
            if hang:
                out.append(dict(failed=['does not terminate'], exc=None, checked=0, obs={},
                                hang=True, assume=True))
            else:
                out.append(dict(failed=['process died: ' + e.decode()[-300:]], exc=None,
                                checked=0, obs={}, died=True, assume=True))
            rest = rest[1:]
    return out


def run_job(job):
    t0 = time.time()
    R.ENTERED.clear()
    res = dict(job=job['name'], violations=[], undecided=[], complete=False, samples=[],
               traces_ok=0, traces_bad=[], error=None, labels={}, loopcut=0)
    en = None
    try:
        w = world()
        mod = w.load('harness.' + job['module'])
        fn = getattr(mod, job['func'])
        en = E.Engine(timeout_ms=job.get('solver_timeout', 60) * 1000,
                      tick_budget=job.get('ticks', 20000),
                      deadline=t0 + job.get('budget', 300))
        params = job.get('params', {})
        validate = []       # (inputs, expected observations)
        maxval = job.get('validate', 6)
        case = dict(module=job['module'], func=job['func'], params=params)
        seen_labels = res['labels']
        cands = {}

        def run_path():
            ctx = SymCtx(en, w)
            exc = None
            try:
                fn(ctx, **params)
            except E.LoopBudget:
                exc = 'loop'
            except E.Unsupported as e:
                sites = [x for x in en.region_sites if x not in en.mustfork]
                if sites:        # perhaps only reached under that branch's condition
                    raise E.MustFork(sites[-1], 'unsupported: %s' % e)
                exc = ('unsupported', str(e), traceback.format_exc()[-700:])
            except E.Control:
                raise
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                exc = '%s: %s at %s:%s' % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno)
            finally:
                ctx.unstub()
            if exc is not None and en.guards:
                en.guards = []
            return ctx, exc

        def confirm(ctx, label, fail, note=True):
            """Models of PC and `fail`; report the first one the real code reproduces."""
            key = label
            if note and cands.get(key, 0) >= job.get('max_nonrepro', 3):
                return False
            en.solver.push()
            try:
                if fail is not None:
                    en.solver.add(fail)
                tries = []
                for k in range(job.get('models', 12)):
                    if not en.check():
                        break
                    m = en.solver.model()
                    inp = ctx.model_inputs(m)
                    c = dict(case, inputs=inp, label=label)
                    tries.append(c)
                    diff = []
                    for kind, v in ctx.inputs.values():
                        if kind == 'bytes':
                            diff += [x != m.eval(x, model_completion=True) for x in v]
                        elif kind in ('int', 'bool'):
                            diff.append(v != m.eval(v, model_completion=True))
                    if not diff or label == 'does not terminate' and k >= 2:
                        break
                    en.solver.add(zor(diff))
            finally:
                en.solver.pop()
            hang = label == 'does not terminate'
            outs = replay_batch(tries, timeout=25 if hang else 60)
            for c, o in zip(tries, outs):
                if (o.get('hang') or o.get('died')) and not hang:
                    continue
                if o['failed'] or o['exc']:
                    c['observed'] = o['failed'] or [o['exc']]
                    if o.get('hang'):
                        c['timeout'] = 20
                    res['violations'].append(c)
                    return True
            cands[key] = cands.get(key, 0) + 1
            if not note:
                return False
            if hang:
                res['loopcut'] += 1
            res['undecided'].append(dict(label=label, inputs=tries[0]['inputs'] if tries else None,
                                         job=job['name']))
            return False

        def on_path(r):
            ctx, exc = r
            if isinstance(exc, tuple):
                # not encodable: counted as undecided; the real code is still run on models
                # of the path condition, so that a failure there is not lost
                uns = cands['unsupported'] = cands.get('unsupported', 0) + 1
                if uns <= 3:
                    res['undecided'].append(dict(label='unsupported: ' + exc[1], tb=exc[2],
                                                 job=job['name']))
                if uns <= 20 and confirm(ctx, 'path not encodable (%s)' % exc[1][:60], None, False):
                    return True
                if uns >= 60:
                    raise E.Budget()
                return False
            if exc == 'loop':
                return confirm(ctx, 'does not terminate', None)
            if exc is not None:
                return confirm(ctx, 'raises ' + exc, None)
            en.st['obligations'] += len(ctx.obls) + ctx.held
            en.st['discharged'] += ctx.held
            for l, _ in ctx.obls:
                seen_labels[l] = seen_labels.get(l, 0) + 1
            bad = [(l, znot(e)) for l, e in ctx.obls]
            bad = [(l, e) for l, e in bad if not z3.is_false(e)]
            if bad:
                try:
                    failing = en.check(zor([e for _, e in bad]))
                except E.SolverUnknown:
                    failing = None
                if failing is None or failing:
                    stop = False
                    for l, e in bad:
                        try:
                            f = en.check(e)
                        except E.SolverUnknown as u:
                            res['undecided'].append(dict(label=l, solver=str(u), job=job['name']))
                            continue
                        if f:
                            if confirm(ctx, l, e):
                                return True
                        else:
                            en.st['discharged'] += 1
                    return stop
            en.st['discharged'] += len(ctx.obls)
            # reachability witness and encoding validation on a spread of paths
            n = en.st['paths']
            if len(validate) < maxval and (n & (n - 1) == 0 or n % 97 == 0):
                if en.check():
                    m = en.solver.model()
                    validate.append((ctx.model_inputs(m),
                                     {k: concof(m, v) for k, v in ctx.obs.items()}))
            return False

        try:
            res['complete'] = en.explore(run_path, on_path, job.get('max_paths'))
        except E.Budget:
            res['complete'] = False
        if not res['violations'] and validate:
            outs = replay_batch([dict(case, inputs=i) for i, _ in validate],
                                timeout=120)
            for (inp, ob), o in zip(validate, outs):
                bad = o['failed'] or o['exc'] or not o.get('assume')
                diff = [k for k in ob if not same(ob[k], o['obs'].get(k))]
                if bad or diff:
                    res['traces_bad'].append(dict(inputs=inp, failed=o['failed'], exc=o['exc'],
                                                  diff=diff, sym={k: ob[k] for k in diff},
                                                  real={k: o['obs'].get(k) for k in diff},
                                                  assume=o.get('assume'),
                                                  cut=bool(o.get('hang') or o.get('died'))))
                else:
                    res['traces_ok'] += 1
                    if len(res['samples']) < 2:
                        res['samples'].append(inp)
            # a path whose obligations hold in the encoding but fail on the real code
            for t in res['traces_bad']:
                if (t['failed'] or t['exc']) and t['assume'] and not t['cut']:
                    c = dict(case, inputs=t['inputs'], label='concrete run of a solver witness',
                             observed=t['failed'] or [t['exc']])
                    res['violations'].append(c)
                    break
    except E.SolverUnknown as e:
        res['undecided'].append(dict(label='path feasibility', solver=str(e), job=job['name']))
    except E.Unsupported as e:
        res['undecided'].append(dict(label='unsupported: %s' % e, job=job['name'],
                                     tb=traceback.format_exc()[-800:]))
    except E.Control as e:
        res['error'] = traceback.format_exc()
    except Exception:
        res['error'] = traceback.format_exc()
    if en is not None:
        res['stats'] = en.st
        res['mustfork'] = {k: v for k, v in en.mustfork.items()}
    res['functions'] = sorted(R.ENTERED)
    res['wall'] = time.time() - t0
    return res
