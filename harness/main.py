import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
T0 = time.monotonic()
HOME = os.environ['VERIF_HOME']


def load_known(pid):
    known = {}
    path = os.path.join(HOME, 'known-findings.txt')
    if os.path.isfile(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property={} '.format(pid)):
                mech, _, what = line.split('mechanism=', 1)[1].partition(' :: ')
                known[mech.strip()] = what.strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--case', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    from harness import core
    sys.path.insert(0, core.REPO)
    core.watch_lines()
    import plaschem.chemistry
    import pygmo_fwork.config
    for mod in (plaschem.chemistry, pygmo_fwork.config):
        if not os.path.realpath(mod.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
            print('wrong tree under test:', mod.__file__)
            return 2
    module = importlib.import_module('harness.checks.' + a.pid.lower())
    if a.replay:
        spec = json.load(open(a.replay))
        a.tier, a.seed, a.case = spec['tier'], spec['seed'], spec['case']
    if a.case is not None:
        m = core.Monitor(a.pid, a.seed, a.tier)
        fn = module.case if a.case >= 0 else (lambda mm, rng, i: module.directed(mm))
        m.run_case(fn, a.case, 600)
        print(json.dumps(m.violations, indent=1))
        print(dict(m.events), m.inconclusive)
        return 1 if m.violations else 0

    ncases = a.cases or (module.QUICK if a.tier == 'quick' else module.THOROUGH)
    budget = getattr(module, 'BUDGET', {'quick': 240, 'thorough': 700})[a.tier]
    limit = getattr(module, 'CASE_LIMIT', 120)
    deadline = time.monotonic() + budget
    procs, results, errors = [], [], []
    sys.stdout.flush()
    for s in range(a.jobs):
        rx, tx = mp.Pipe(duplex=False)
        p = mp.get_context('fork').Process(
            target=core.worker, args=(module, a.pid, a.seed, a.tier, s, a.jobs, ncases, deadline, limit, tx))
        p.start()
        tx.close()
        procs.append((p, rx))
    hard = deadline + limit + 20
    for p, rx in procs:
        try:
            if rx.poll(max(1, hard - time.monotonic())):
                results.append(rx.recv())
            else:
                errors.append('worker did not answer in time')
        except EOFError:
            errors.append('worker died')
        if p.is_alive():
            p.join(5)
            p.kill()
    from collections import Counter
    events, sigs, samples, violations, inconclusive, evaluations = Counter(), set(), [], [], [], 0
    for r in results:
        if 'error' in r:
            errors.append(r['error'])
            continue
        events.update(r['events'])
        sigs |= r['signatures']
        samples += r['samples']
        violations += r['violations']
        inconclusive += r['inconclusive']
        evaluations += r['evaluations']
    reached = {}
    for r in results:
        for f, n in r.get('reached', ()):
            reached.setdefault(f, set()).add(n)
    lines_reached = {}
    for f in sorted(reached):
        try:
            every = core.executable_lines(os.path.join(core.REPO, f))
        except Exception:
            continue
        hit = reached[f] & every
        if hit:
            lines_reached[f] = '{} of {}'.format(len(hit), len(every))
    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'w') as f:
            json.dump({k: sorted(v) for k, v in reached.items()}, f)
    known = load_known(a.pid)
    new = [v for v in violations if v['mechanism'] not in known]
    seen_known = {v['mechanism'] for v in violations if v['mechanism'] in known}

    short = {k: (events.get(k, 0), n) for k, n in getattr(module, 'MIN_EVENTS', {}).items() if events.get(k, 0) < n}
    status = 0
    lines = []
    if new:
        status = 1
        os.makedirs(os.path.join(HOME, 'replays'), exist_ok=True)
        by_mech = {}
        for v in new:
            by_mech.setdefault(v['mechanism'], v)
        for k, (mech, v) in enumerate(sorted(by_mech.items())[:5]):
            path = os.path.join(HOME, 'replays', '{}-{}.json'.format(a.pid, k))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            lines.append('VIOLATION property={} replay={}'.format(a.pid, path))
            lines.append('  {}: {}'.format(mech, v['message'][:700]))
    elif errors or short:
        status = 2
    for mech in sorted(known):
        lines.append('KNOWN-FINDING: property={} {} ({}observed in this run)'.format(
            a.pid, known[mech], '' if mech in seen_known else 'not '))

    evidence = {
        'property': a.pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(sigs),
            'rule': module.RULE,
            'samples': samples[:6] or ['(none)'],
            'events_observed': {k: v for k, v in sorted(events.items())},
            'lines_of_functions_executed': lines_reached,
            'planned_cases': ncases,
            'workers': a.jobs,
            'inconclusive': inconclusive[:10],
            'known_findings_observed': sorted(seen_known),
        },
        'wall_s': round(time.monotonic() - T0, 2),
        'violations': len(new),
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
    }
    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
    with open(os.path.join(HOME, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    for line in lines:
        print(line)
    print('{}: {} cases, {} distinct non-trivial, {} oracle decisions, {} violations, {:.1f} s'.format(
        a.pid, evaluations, len(sigs), events.get('oracle decisions', 0), len(new), time.monotonic() - T0))
    print('  ' + ', '.join('{}={}'.format(k, v) for k, v in sorted(events.items())))
    if status == 2:
        print('INCONCLUSIVE', 'errors:', errors, 'monitor reached too rarely:', short)
    return status


try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)
