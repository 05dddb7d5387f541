"""Check of one property: seeded search over schedules, faults and inputs."""

import argparse
import gc
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

for _var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_var] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import numpy as np                                              # noqa: E402

from sim import run as simrun                                   # noqa: E402
from sim import world as simworld                               # noqa: E402
from sim.kernel import HarnessError                             # noqa: E402
from sim.profiles import COST, PROFILES                         # noqa: E402

REAL = ['elphmod/*.py of the working tree (every rank has its own modules)',
    'NumPy', 'SciPy', 'LAPACK', 'pickle']
STUB = ['mpi4py.MPI', 'file system (open, os, shutil, glob, NumPy I/O)',
    'clock', 'random-number states', 'standard output',
    'uninitialized memory', 'iteration order of sets of strings']


def cases_of(prop):
    import sim.cases                                            # noqa: F401
    return [c for c in simrun.REGISTRY.values() if prop in c.props]


def plan(prop, tier, seed):
    """Deterministic sequence of (index, case, params, config)."""
    profile = PROFILES[prop]
    cases = cases_of(prop)
    rate = {c.name: max(1, int(c.weight)) * (0.04 / COST.get(c.name, 0.04))
        ** 0.5 for c in cases}
    due = {c.name: 0.5 / rate[c.name] for c in cases}
    per = profile.get('configs', 3)
    i = 0
    while True:
        case = min(cases, key=lambda c: due[c.name])
        due[case.name] += 1 / rate[case.name]
        rng = random.Random('%s/%s/%d/%d' % (prop, case.name, seed, i))
        p = case.draw(rng)
        for j in range(per):
            config = simrun.gen_config(rng, case, p, profile)
            yield i, j, case, p, config
        i += 1


def execute(prop, tier, seed, worker, workers, limit, deadline, queue):
    np.seterr(all='ignore')
    gc.disable()
    t0 = time.time()
    agg = dict(evaluations=0, skipped=0, nontrivial=[], cases={}, calls={},
        totals={}, faults={}, simulated=0.0, events=0, switches=0, worlds=0,
        harness=[], samples=[], ranks={}, nodes={}, policies={}, inputs=[],
        complete=False)
    violations = []
    seen = set()
    inputs = set()
    blocked = {}
    last = None
    for i, j, case, p, config in plan(prop, tier, seed):
        if i >= limit:
            agg['complete'] = True
            break
        if i % workers != worker:
            continue
        if time.time() > deadline:
            break
        if blocked.get(case.name, 0) >= 3:
            continue
        out = simrun.evaluate(case, p, config)
        agg['evaluations'] += 1
        env = out.env
        if agg['evaluations'] % 25 == 0:
            gc.collect()
        if out.harness:
            agg['harness'].append('%s: %s' % (case.name, out.harness))
            if len(agg['harness']) > 20:
                break
            continue
        if out.skipped:
            agg['skipped'] += 1
            continue
        a = agg['cases'].setdefault(case.name, 0)
        agg['cases'][case.name] = a + 1
        agg['worlds'] += env.runs
        agg['events'] += env.events
        agg['switches'] += env.switches
        agg['simulated'] += env.seconds
        for name in ('calls', 'totals', 'faults'):
            for k, v in getattr(env, name).items():
                agg[name][k] = agg[name].get(k, 0) + v
        for name, key in (('ranks', config['n']), ('nodes',
                len(set(config['nodes']))), ('policies', config['policy'])):
            key = str(key)
            agg[name][key] = agg[name].get(key, 0) + 1
        d = hashlib.blake2b((case.name + json.dumps(p, sort_keys=True)
            + out.digest() + json.dumps(env.faults, sort_keys=True)).encode(),
            digest_size=8).hexdigest()
        if env.switches or env.faults:
            seen.add(d)
        inputs.add(hashlib.blake2b((case.name + json.dumps(p,
            sort_keys=True)).encode(), digest_size=8).hexdigest())
        if len(agg['samples']) < 1 or (agg['evaluations'] in (40, 200)):
            agg['samples'].append(dict(case=case.name, params=p,
                config=config, events=env.events, faults=env.faults,
                outcome='held' if out.violation is None else 'violated'))
        if out.violation is not None:
            blocked[case.name] = blocked.get(case.name, 0) + 1
            violations.append(dict(index=i, config_index=j, case=case.name,
                params=p, config=config, kind=out.violation.kind,
                message=out.violation.message))
            if len(violations) >= 12:
                break
    agg['nontrivial'] = sorted(seen)
    agg['inputs'] = sorted(inputs)
    agg['wall'] = time.time() - t0
    queue.put((worker, agg, violations))


def guarded(*args):
    try:
        execute(*args)
    except BaseException:
        args[-1].put((args[3], None, traceback.format_exc()))


def determinism(prop, seed, count=3):
    """Same seed, same execution: re-run some evaluations."""
    bad = []
    done = 0
    for i, j, case, p, config in plan(prop, 'quick', seed):
        if done >= count:
            break
        if j:
            continue
        a = simrun.evaluate(case, p, config)
        b = simrun.evaluate(case, p, config)
        c = simrun.evaluate(case, p, config, a.env.recorded)
        if a.harness or a.skipped:
            continue
        if not a.digest() == b.digest() == c.digest():
            bad.append('%s: %s' % (case.name, [x.digest() for x in (a, b,
                c)]))
        done += 1
    return done, bad


def load_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def matches(finding, v, prop):
    import re
    if finding.get('status') != 'open' or prop not in finding['properties']:
        return False
    if finding.get('cases') and v['case'] not in finding['cases']:
        return False
    if finding.get('kinds') and v['kind'] not in finding['kinds']:
        return False
    return re.search(finding['pattern'], v['message']) is not None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', choices=['quick', 'thorough'], nargs='?',
        default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--limit', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--workers', type=int,
        default=min(8, os.cpu_count() or 1))
    ap.add_argument('--cases')
    ap.add_argument('--no-minimise', action='store_true')
    args = ap.parse_args(argv)
    prop, tier = args.property, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    profile = PROFILES[prop]
    t0 = time.time()

    try:
        simworld.program()
    except SyntaxError as e:
        # code that does not even compile is not what this check judges
        print('cannot compile %s' % e)
        return 2

    cases = cases_of(prop)
    if args.cases:
        keep = args.cases.split(',')
        for c in list(simrun.REGISTRY.values()):
            if c.name not in keep:
                simrun.REGISTRY.pop(c.name)
        cases = cases_of(prop)

    limit = args.limit or (profile['quick'] if tier == 'quick'
        else profile.get('thorough', 40 * profile['quick']))
    seconds = args.seconds or (profile.get('seconds', 150) if tier == 'quick'
        else profile.get('thorough_seconds', 840))
    deadline = t0 + seconds
    workers = max(1, args.workers)
    # import everything before forking; keep single-threaded until then
    import scipy.sparse                                         # noqa: F401
    import scipy.special                                        # noqa: F401
    import scipy.optimize                                       # noqa: F401
    import scipy.linalg                                         # noqa: F401

    ctx = multiprocessing.get_context('fork')
    queue = ctx.Queue()
    procs = [ctx.Process(target=guarded, args=(prop, tier, seed, w, workers,
        limit, deadline, queue), daemon=True) for w in range(workers)]
    for p in procs:
        p.start()
    results = {}
    errors = []
    while len(results) < workers:
        try:
            w, agg, v = queue.get(timeout=5)
            results[w] = (agg, v)
            if agg is None:
                errors.append(v)
        except Exception:
            for w, p in enumerate(procs):
                if w not in results and not p.is_alive():
                    time.sleep(1)
                    if queue.empty():
                        errors.append('worker %d died (exit code %s)' % (w,
                            p.exitcode))
                        results[w] = (None, [])
            if time.time() > deadline + 120:
                break
    for p in procs:
        p.join(1)
        if p.is_alive():
            p.kill()

    aggs = [a for a, v in results.values() if a]
    violations = [x for a, v in results.values() if a for x in v]
    # prefer violations that do not take long to reproduce
    violations.sort(key=lambda v: (simrun.SLOW in v['message'], v['index'],
        v['config_index']))
    for a in aggs:
        errors.extend(a['harness'])

    def total(name):
        out = {}
        for a in aggs:
            for k, v in a[name].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))

    checked, bad = determinism(prop, seed)
    if bad:
        errors.append('not repeatable: %s' % bad)

    findings = load_findings()
    known = {}
    new = []
    for v in violations:
        for f in findings:
            if matches(f, v, prop):
                known.setdefault(f['id'], []).append(v)
                break
        else:
            new.append(v)

    for f in findings:
        if f.get('status') == 'open' and prop in f['properties']:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    replay = None
    if new:
        v = new[0]
        print('%s/%s: %s: %s' % (prop, v['case'], v['kind'], v['message']))
        case = simrun.REGISTRY[v['case']]
        config, deviations, out = v['config'], None, None
        if not args.no_minimise and simrun.SLOW not in v['message']:
            class V:
                kind = v['kind']
            try:
                config, deviations, out, spent = simrun.minimise(case,
                    v['params'], v['config'], V)
            except Exception:
                traceback.print_exc()
        final = simrun.evaluate(case, v['params'], config, deviations, True)
        if final.violation is None:
            config, deviations = v['config'], None
            final = simrun.evaluate(case, v['params'], config, None, True)
        message = final.violation.message if final.violation else v['message']
        trace = []
        if final.env.traces:
            trace = ['%d:%s' % x for x in final.env.traces[-1][-200:]]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay = os.path.join(VERIF, 'replays', '%s-%d-%d.json' % (prop,
            seed, v['index']))
        with open(replay, 'w') as f:
            json.dump(dict(property=prop, case=v['case'], params=v['params'],
                config=config, deviations=deviations, kind=final.violation.kind
                if final.violation else v['kind'], message=message,
                digest=final.digest(), original=dict(seed=seed,
                index=v['index'], config=v['config'], message=v['message']),
                faults=final.env.faults, last_events=trace), f, indent=1)
        print('minimised: %d ranks on nodes %s, %s scheduling deviations: %s'
            % (config['n'], config['nodes'], 'all' if deviations is None
            else sum(map(len, deviations)), message))
        others = sorted({(x['case'], x['kind']) for x in new[1:]})
        if others:
            print('also: %s' % ', '.join('%s (%s)' % o for o in others))
        print('VIOLATION property=%s replay=%s' % (prop, replay))

    wall = time.time() - t0
    evaluations = sum(a['evaluations'] for a in aggs)
    nontrivial = set()
    inputs = set()
    for a in aggs:
        nontrivial.update(a['nontrivial'])
        inputs.update(a['inputs'])
    search = max([a['wall'] for a in aggs] or [wall])
    evidence = dict(property=prop, tier=tier, seed=seed,
        level=profile.get('level', 'exploration'),
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(nontrivial),
            rule='A case is (scenario, generated input, configuration, '
                'schedule, faults), all derived from the seed. Distinct: '
                'different hash of scenario, input, faults and complete '
                'sequence of simulator events. Non-trivial: processes '
                'actually took turns or a fault was injected.',
            samples=[s for a in aggs for s in a['samples']][:6],
            distinct_inputs=len(inputs),
            simulated_worlds=sum(a['worlds'] for a in aggs),
            worlds_per_hour=int(3600 * sum(a['worlds'] for a in aggs)
                / max(search, 1e-9)),
            seeds_per_hour=int(3600 * evaluations / max(search, 1e-9)),
            simulated_seconds=round(sum(a['simulated'] for a in aggs), 3),
            events=sum(a['events'] for a in aggs),
            context_switches=sum(a['switches'] for a in aggs),
            scenarios=total('cases'),
            process_counts=total('ranks'),
            node_counts=total('nodes'),
            policies=total('policies'),
            faults_injected=total('faults'),
            simulator_activity=total('totals'),
            communication=total('calls'),
            not_applicable_draws=sum(a['skipped'] for a in aggs),
            budget_used_up=any(not a['complete'] for a in aggs),
            determinism_rechecks=checked,
            known_findings_hit={k: len(v) for k, v in known.items()},
            harness_errors=len(errors),
            real_components=REAL, stub_components=STUB),
        assumptions=['MPI behaves as the standard guarantees (no lost or '
            'corrupted messages); shared windows are coherent',
            'collectives are atomic copies at the time of the call'],
        wall_s=round(wall, 3), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print('%s %s: %d evaluations (%d distinct, %d inputs), %d worlds, %.1f s, '
        '%d violations, %d harness errors' % (prop, tier, evaluations,
        len(nontrivial), len(inputs), evidence['coverage']['simulated_worlds'],
        wall, len(new), len(errors)))
    for e in errors[:5]:
        print('HARNESS: %s' % e)
    if new:
        return 1
    if errors:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
