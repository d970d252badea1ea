#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

Exit 0: it held on everything explored.  Exit 1 with a VIOLATION line: it does
not.  Exit 2: the check could not do its work."""
import concurrent.futures, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import plans


def main():
    prop = sys.argv[1]
    plan = plans.PLANS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'model': [],
           'trace_events': {}, 'trace_states': 0, 'replayed_behaviours': 0, 'calls_recorded': 0}
    violation, rc = None, 0
    try:
        run(prop, plan, tier, seed, scratch, cov)
    except Violation as v:
        violation, rc = v, 1
    except ToolError as e:
        log('%s: %s' % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    replay = os.path.join(VERIF, 'evidence', prop + '.violation.json')
    if violation:
        data = dict(violation.data, property=prop, what=violation.what, seed=seed, tier=tier)
        with open(replay, 'w') as fh:
            json.dump(data, fh, indent=1)
        print('%s: %s' % (prop, violation.what))
        print(json.dumps(data)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    if rc != 2:
        cov['samples'] = cov['samples'][:4] or ['none']
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': plan.get('assumptions', []), 'wall_s': round(time.time() - t0, 1),
              'violations': 1 if violation else 0}
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    if rc == 0:
        print('%s: held; model states %d, replayed behaviours %d, recorded calls %d, %.0f s' % (
            prop, cov['states'], cov['replayed_behaviours'], cov['calls_recorded'], time.time() - t0))
    return rc


def model(job, tier, scratch):
    cfg = job['thorough'] if tier == 'thorough' and 'thorough' in job else job['quick']
    r = tlc(scratch, job['module'], cfg, workers=job.get('workers', 3), timeout=job.get('timeout', LONG), heap=job.get('heap', '4g'))
    if job.get('expect'):
        # a control: the model with a fault in it has to be refused
        if r.invariant != job['expect']:
            raise ToolError('the control %s is not refused:\n%s' % (job['name'], r.tail()))
        r.emitted, r.out = None, ''
        return r
    if not r.ok:
        raise ToolError('the specification itself fails (%s):\n%s' % (job['name'], r.tail()))
    r.emitted = emitted(r) if job.get('replay') else None
    r.out = ''
    return r


def run(prop, plan, tier, seed, scratch, cov):
    pool = concurrent.futures.ThreadPoolExecutor(4)
    futures = []
    try:
        mcs = [(job, pool.submit(model, job, tier, scratch)) for job in plan.get('models', [])]
        exes = build()
        # traces of the real code, each judged by TLC
        rounds = plan.get('rounds', {}).get(tier, 1)
        deadline = time.time() + (60 if tier == 'quick' else plan.get('budget', 480))
        for k in range(rounds):
            for i, d in enumerate(plan.get('drives', [])):
                futures.append(pool.submit(one_trace, prop, d, exes, tier, seed * 1000 + 10 * k + i, k, scratch, deadline if k else None))
        for make in plan.get('inputs', []):
            futures.append(pool.submit(make, prop, exes, tier, scratch, seed))
        for job, f in mcs:
            r = f.result()
            cov['states'] += r.distinct
            cov['transitions'] += r.generated
            cov['model'].append({'name': job['name'], 'states': r.distinct, 'transitions': r.generated,
                                 'behaviours': len(r.emitted) if r.emitted else 0})
            if job.get('replay'):
                futures.append(pool.submit(job['replay'], prop, job, r.emitted, exes, tier, scratch, seed))
        for f in futures:
            res = f.result()
            if not res:
                continue
            cov['traces_validated_against_impl'] += res['validated']
            cov['calls_recorded'] += res['events']
            cov['replayed_behaviours'] += res.get('replayed', 0)
            cov['trace_states'] += res.get('states', 0)
            cov['samples'] += res['samples']
            for op, n in res['ops'].items():
                cov['trace_events'][op] = cov['trace_events'].get(op, 0) + n
        for op in plan.get('ops', []):
            if not cov['trace_events'].get(op):
                raise ToolError('no %s event was recorded: the check would be vacuous' % op)
    finally:
        for f in futures:
            f.cancel()
        pool.shutdown(wait=True, cancel_futures=True)


def one_trace(prop, d, exes, tier, seed, k, scratch, deadline):
    if deadline and time.time() > deadline:
        return None
    prof = d.get('profile', 'debug')
    path = os.path.join(scratch, 't-%d-%s.ndjson' % (seed, prof))
    n = d['n'][tier]
    drive(exes[prof], d['driver'], prop, seed, n, tier if k == 0 else 'quick', path, args=d.get('args', ()))
    return plans.judged(scratch, d['spec'], prop, path, d.get('hist', False), d)


if __name__ == '__main__':
    sys.exit(main())
