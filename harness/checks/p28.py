"""Running Morris trajectories: what is evaluated, in which state, and what is logged."""
import math
import os

import numpy as np
import pandas as pd
import yaml

from harness import fakes, gen, hist, odes

RULE = ('random chemistry in a random state, trajectories over reactions, species or return coefficients, with the stiff '
        'solver replaced by a quick one sensitive to every coefficient; the state of the chemistry is recorded at every '
        'model evaluation and the factors are recovered from it; failing solvers, repeats, changed inputs, explicit and '
        'taken trajectory ids; the logs are read back independently; non-trivial: a complete trajectory of at least 3 '
        'factors')
QUICK, THOROUGH = 150, 4000
CASE_LIMIT = 100
MIN_EVENTS = {'trajectories complete': 60, 'evaluations': 350, 'factors recovered': 150, 'species trajectories': 15,
              'reactions trajectories': 15, 'return coefficients trajectories': 10, 'interrupted trajectories': 20,
              'resumed after an interruption': 15, 'incoherent trajectories refused': 30, 'full logs': 15,
              'taken trajectory ids refused': 6, 'elementary effects': 1000,
              'the same again after an interruption': 20}

GRID = [(2 * k + 1) / 20 for k in range(10)]
FULL = {'solution.csv', 'rates.csv', 'wall_fluxes.csv', 'chemistry_attributes.yaml', 'model_attributes.yaml',
        'solver_log.yaml'}


def closest(v):
    g = min(GRID, key=lambda g: abs(g - v))
    return g if abs(g - v) < 1e-6 else None


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in files:
            with open(os.path.join(d, f), 'rb') as s:
                out[os.path.relpath(os.path.join(d, f), root)] = s.read()
    return out


def case(m, rng, i):
    from pygmo_fwork.optichem.exceptions import MorrisCoherenceError, MorrisLogError
    from pygmo_fwork.optichem.morris import MorrisMethod
    spec = odes.gen_model_spec(rng, n_heavy=rng.choice([2, 3, 3, 4, 5]), n_reactions=rng.randint(2, 7))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    if rng.random() < .4:
        h.random_state(3)
    ref = h.ref
    sids, rids = ref.species_ids(), ref.reaction_ids()
    neutral = [s for s in sids if ref.sp[s]['q'] == 0]
    if not neutral or len(sids) < 2:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    p['feeds'] = {n: v for n, v in p['feeds'].items()}
    params = {rng.choice(odes.ALT[k]): v for k, v in p.items()}
    if rng.random() < .2:
        params = {k: np.float64(v) if isinstance(v, float) else v for k, v in params.items()}
    params_before = repr(params)
    name = {s: ref.sp[s]['name'] for s in ref.order}
    kind = rng.choice(['reactions', 'species', 'return_coefficients'])
    extra = {}
    nominal_ret = {s: dict(ref.ret(s)) for s in sids}
    if kind == 'return_coefficients':
        # give some species something to vary
        pairs = []
        for s in rng.sample(sids, min(3, len(sids))):
            others = [t for t in sids if t != s]
            rng.shuffle(others)
            ret = {name[t]: round(rng.uniform(.02, .15), 4) for t in others[:2]}
            ret[name[s]] = .6
            chem.set_adhoc_species_attributes('ret_coefs', s, dict(ret))
            chem.set_adhoc_species_attributes('stick_coef', s, .5)
            ref.adhoc_ret[s], ref.adhoc_stick[s] = dict(ret), .5
            pairs += [(s, t) for t in others[:2]]
        nominal_ret = {s: dict(ref.ret(s)) for s in sids}
        rng.shuffle(pairs)
        pairs = pairs[:rng.randint(2, max(2, len(pairs)))]
        if len(pairs) < 2:
            return
        ranges = rng.choice([2., 1.5, 3, [round(rng.uniform(1.2, 3.), 2) for _ in pairs]])
        extra = {'ret_species': [(name[s], name[t]) for s, t in pairs], 'rel_ranges': ranges}
        dim = len(pairs)
    else:
        dim = len(sids) if kind == 'species' else len(rids)
    nominal_k = {r: ref.arrh_a(r, si=False) for r in rids}
    if dim < 2:
        return
    m.note(kind=kind, **{k: repr(v) for k, v in extra.items()})
    backend = rng.choice(['pygmol', 'PyGMol', 'PYGMOL'])
    mm = MorrisMethod(chem, params, model_backend=backend)
    if rng.random() < .5:
        mm.debug = True
    root = os.path.join(m.tmp, 'morris')
    os.makedirs(root)
    run = rng.choice(['run', 'a.b', 'R 1'])
    own = hist.values(chem)
    vis = hist.visible(chem)
    kw = dict(morris_results_dir=root, verbosity=rng.choice([0, 0, 1, 2, 3]), **extra)
    done, log = [], []

    def untouched():
        m.check(not hist.diff(own, hist.values(chem)) and hist.visible(chem) == vis, 'chemistry of the method changed',
                lambda: hist.diff(own, hist.values(chem)))
        m.check(repr(params) == params_before, 'model parameters of the method changed')

    again = None
    for step in range(rng.choice([2, 3, 3])):
        fail_at = rng.randrange(dim + 1) if rng.random() < .35 else None
        how = rng.choice(['value', 'fail'])
        full = rng.random() < .35
        compress = rng.random() < .4
        seed = rng.choice([None, rng.randrange(2 ** 32)])
        traj = rng.choice([None, None, 'traj{:03d}'.format(rng.randint(1, 4)), 'mine'])
        if again is not None and rng.random() < .7:  # exactly what was interrupted
            full, compress, seed, traj = again
            m.event('the same again after an interruption')
        again = None
        text = dict(full_log=full, compress_solution=compress, traj_id=traj, fail_at=fail_at, how=how)
        log.append(text)
        m.note(steps=log)
        states = []

        def record(gm, kwargs, err):
            c = gm.model.chemistry
            k = c.get_reactions_arrh_a(si_units=False)
            states.append({
                'k': {int(r): float(k.at[r]) for r in k.index}, 'own': c is chem,
                'ret': {s: {n: float(v) for n, v in d.items()} for s, d in c.get_species_ret_coefs().items()},
                'visible': hist.visible(c), 'sol': None if err else gm.get_solution(), 'run_id': kwargs.get('run_id'),
                'values': {a: b for a, b in hist.values(c).items() if a not in (
                    'arrh_a', 'arrh_a nominal', 'ret_coefs', 'ret_coefs enabled', 'return')}})
        before = tree(root)
        taken = traj in done
        want_id = traj or next('traj{:03d}'.format(k) for k in range(1, 99) if 'traj{:03d}'.format(k) not in done)
        args = (run, kind)
        call = dict(kw, full_log=full, compress_solution=compress, traj_id=traj, random_seed=seed)
        if taken:
            with fakes.solver():
                m.raises(MorrisLogError, 'trajectory id which is taken', mm.run_trajectory, *args, **call)
            m.event('taken trajectory ids refused')
            m.check(tree(root) == before, 'refused trajectory changed the logs')
            continue
        leftover = '{}/logs/{}'.format(run, want_id) in before
        with fakes.solver(lambda k: how if k == fail_at else None), fakes.recorded_runs(record):
            try:
                mm.run_trajectory(*args, **call)
                ok = True
            except Exception as e:
                if fail_at is None:
                    raise
                ok = False
        untouched()
        now = tree(root)
        rel = '{}/logs/{}'.format(run, want_id)
        inside = lambda f: f == rel or f.startswith(rel + '/')
        m.check({f: v for f, v in before.items() if '/logs' in f and not inside(f)} ==
                {f: v for f, v in now.items() if '/logs' in f and not inside(f) and f != run + '/logs' or
                 f == run + '/logs' and f in before}, 'logs of other trajectories changed',
                lambda: sorted(set(now) ^ set(before)))
        if not ok:
            m.event('interrupted trajectories')
            again = full, compress, seed, traj
            m.check(rel + '/meta.yaml' not in now, 'interrupted trajectory is marked as finished')
            m.check(len(states) == fail_at + 1, 'evaluations up to the failure', (len(states), fail_at))
            continue
        m.check(fail_at is None, 'failed model evaluation ignored')
        if leftover:
            m.event('resumed after an interruption')
        m.check(want_id not in done, 'trajectory id used twice')
        done.append(want_id)
        m.event('trajectories complete')
        m.event(kind.replace('_', ' ') + ' trajectories')
        if dim >= 3:
            m.signature(gen.describe(spec), kind, step)

        # --- the trajectory as it was logged
        m.check(rel + '/meta.yaml' in now, 'finished trajectory without its meta file', sorted(now))
        meta = yaml.safe_load(now[rel + '/meta.yaml'])
        m.check(len(states) == dim + 1 and not any(s['own'] for s in states), 'evaluations of a trajectory',
                (len(states), dim))
        ids = [meta['base_run_id']] + meta['run_ids']
        m.check(len(set(ids)) == dim + 1 and len(meta['deltas']) == len(meta['factors_ids']) == dim,
                'meta data of a trajectory', meta)
        if full:
            m.check([s['run_id'] for s in states] == ids, 'run ids', (ids, [s['run_id'] for s in states]))
        # --- factors recovered from the states
        labels = {'reactions': rids, 'species': [name[s] for s in sids],
                  'return_coefficients': ['r({}>{})'.format(*q) for q in extra.get('ret_species', [])]}[kind]
        m.check(sorted(map(str, meta['factors_ids'])) == sorted(map(str, labels)), 'every factor is changed once',
                (meta['factors_ids'], labels))
        for s in states:
            m.event('evaluations')
            m.check(s['values'] == states[0]['values'] and s['visible'] == states[0]['visible'] == vis,
                    'anything else than the factors changed', lambda: hist.diff(states[0]['values'], s['values']))
            if kind == 'return_coefficients':
                m.check(s['k'] == nominal_k, 'rate coefficients changed with return coefficients')
            else:
                m.check({a: {n: c for n, c in d.items() if c} for a, d in s['ret'].items()} ==
                        {a: {n: c for n, c in d.items() if c} for a, d in nominal_ret.items()},
                        'return coefficients changed with rate coefficients')
        factor = [labels.index(f) for f in meta['factors_ids']]
        x0 = [None] * dim
        if kind == 'reactions':
            xs = []
            for s in states:
                xs.append([closest(s['k'][r] / (2 * nominal_k[r])) if nominal_k[r] else None for r in rids])
        elif kind == 'return_coefficients':
            rr = ranges if isinstance(ranges, list) else [ranges] * dim
            xs = []
            for s in states:
                row = []
                for (a, b), g in zip(pairs, rr):
                    v = s['ret'][a][name[b]] / nominal_ret[a][name[b]]
                    row.append(closest((math.log(v) / math.log(g) + 1) / 2))
                xs.append(row)
                for a in sids:
                    tot, nom = math.fsum(s['ret'][a].values()), math.fsum(nominal_ret[a].values())
                    m.check(abs(tot - nom) < 1e-9, 'number of returned particles conserved', (name[a], tot, nom))
                    for n, v in nominal_ret[a].items():
                        if n != name[a] and (a, ref.by_name[n]) not in pairs:
                            m.check(abs(s['ret'][a][n] - v) < 1e-12, 'return coefficient which is not a factor changed')
        else:
            # the ratio of coefficients over the step of a species gives its factor before the step
            for j, (f, d) in enumerate(zip(factor, meta['deltas'])):
                a, b = states[j]['k'], states[j + 1]['k']
                inv = [r for r in rids if sids[f] in ref.r[r]['lhs'] + ref.r[r]['rhs'] and nominal_k[r]]
                m.check(all(a[r] and b[r] != a[r] for r in inv), 'coefficients of a species scaled by its factor',
                        lambda: (labels[f], [(a[r], b[r]) for r in inv]))
                guess = {closest(d / (b[r] / a[r] - 1)) for r in inv}
                m.check(len(guess) <= 1 and None not in guess, 'coefficients of a species scaled by its factor',
                        lambda: (labels[f], [(a[r], b[r]) for r in inv]))
                if guess:
                    x0[f] = guess.pop()
            xs = [list(x0)]
            for f, d in zip(factor, meta['deltas']):
                row = list(xs[-1])
                if row[f] is not None:
                    row[f] = closest(row[f] + d)
                xs.append(row)
            for s, x in zip(states, xs):
                for r in rids:
                    want = nominal_k[r]
                    for k, sid in enumerate(sids):
                        if sid in ref.r[r]['lhs'] + ref.r[r]['rhs'] and want:
                            want *= 2 * x[k]
                    m.check(abs(s['k'][r] - want) <= 1e-9 * want, 'coefficients given by the factors of species',
                            lambda: (r, s['k'][r], want, x))
        undetermined = {k for k in range(dim) if kind == 'species' and x0[k] is None or
                        kind == 'reactions' and not nominal_k[rids[k]]}
        for j in range(dim + 1):
            for k in range(dim):
                if k in undetermined:
                    continue
                m.check(xs[j][k] is not None, 'factor off the grid', lambda: (labels[k], states[j]['k']))
                m.event('factors recovered')
                if j:
                    want = xs[j - 1][k] + (meta['deltas'][j - 1] if factor[j - 1] == k else 0.)
                    m.check(abs(xs[j][k] - want) < 1e-6, 'a step changes the logged factor by the logged delta',
                            lambda: (labels[k], xs[j - 1][k], xs[j][k], meta['deltas'][j - 1], factor[j - 1]))
        # --- logs
        dirs = {f for f, v in now.items() if inside(f) and v is None}
        m.check(dirs >= {rel} | {rel + '/' + q for q in ids} and (leftover or len(dirs) == dim + 2), 'directories of runs',
                lambda: (sorted(dirs), ids))
        for q, s in zip(ids, states):
            sol = pd.read_csv(os.path.join(root, rel, q, 'solution.csv'), index_col=0)
            m.check(list(sol.columns) == list(s['sol'].columns), 'columns of a logged solution')
            if full or not compress:
                m.check(sol.shape == s['sol'].shape and np.allclose(sol.values, s['sol'].values, rtol=1e-12, atol=0),
                        'logged solution', q)
            else:
                rows = [k for k in range(len(s['sol'])) if any(
                    np.allclose(s['sol'].values[k], r, rtol=1e-12, atol=0) for r in sol.values)]
                m.check(len(rows) == len(sol) and {0, len(s['sol']) - 1} <= set(rows), 'compressed solution', (q, rows))
            files = {os.path.basename(f) for f in now if f.startswith('{}/{}/'.format(rel, q))}
            if full:
                m.check(files >= FULL, 'full log of a run', files)
            else:
                m.check(files == {'solution.csv'}, 'log of a run', files)
                m.event('short logs where others were left', leftover)
        if full:
            m.event('full logs')
        # --- end to end: the elementary effects of what was evaluated
        if full or not compress:
            times = sorted(rng.uniform(0, p['t_end']) for _ in range(2))
            st = MorrisMethod.evaluate_trajectory(os.path.join(root, rel), times)
            for t, ee, mean in zip(times, st.elementary_effects, st.mean_outputs):
                for col in states[0]['sol'].columns:
                    v = [fakes.interp(list(s['sol']['t']), list(s['sol'][col]), t) for s in states]
                    big = max(map(abs, v))
                    m.check(abs(mean[col] - math.fsum(v) / len(v)) <= 1e-9 * big, 'mean output', (col, t))
                    for j, f in enumerate(meta['factors_ids']):
                        m.event('elementary effects')
                        m.check(abs(ee.at[f, col] - (v[j + 1] - v[j]) / meta['deltas'][j]) <= 1e-8 * big,
                                'elementary effect', lambda: (f, col, t, ee.at[f, col], v[j], v[j + 1]))
        # --- coherence
        if rng.random() < .7:
            before = tree(root)
            what = rng.choice(['chemistry', 'params', 'type', 'state', 'backend'])
            other_chem, other_params, other_kind, other_extra = chem.copy(), dict(params), kind, extra
            if what == 'chemistry':
                r = rng.choice(rids)
                other_chem.set_adhoc_reactions_attributes('arrh_a', r, nominal_k[r] * 1.01 + 1e-30)
            elif what == 'params':
                key = next(k for k in params if k in odes.ALT['pressure'])
                other_params[key] = float(params[key]) * 1.01
            elif what == 'type':
                other_kind = 'species' if kind != 'species' else 'reactions'
                other_extra = {}
            elif what == 'backend':  # only one is there, so that the other one is in the logs
                meta_file = os.path.join(root, run, 'meta', 'meta.yaml')
                with open(meta_file) as f:
                    logged = yaml.safe_load(f)
                with open(meta_file, 'w') as f:
                    yaml.safe_dump(dict(logged, model_backend='pygkin'), f)
                before = tree(root)
            else:
                s = rng.choice(sids)
                v = ref.stick(s)
                other_chem.set_adhoc_species_attributes('stick_coef', s, .25 if v != .25 else .3)
            other = MorrisMethod(other_chem, other_params, model_backend=backend)
            with fakes.solver() as f:
                m.raises(MorrisCoherenceError, 'incoherent trajectory: ' + what, other.run_trajectory, run, other_kind,
                         morris_results_dir=root, verbosity=0, **other_extra)
                m.check(f.count == 0, 'incoherent trajectory was evaluated')
            m.event('incoherent trajectories refused')
            after = tree(root)
            m.check({f: v for f, v in after.items() if v is not None} == {f: v for f, v in before.items() if v is not None},
                    'incoherent trajectory changed the logs')
            if what == 'backend':
                with open(meta_file, 'w') as f:
                    yaml.safe_dump(logged, f)
    if done and rng.random() < .5:
        st = MorrisMethod.get_morris_stats(logs_dir=os.path.join(root, run, 'logs'), times=[p['t_end'] / 2])
        m.check(len(st.mu) == 1 and len(st.mu[0]) == dim, 'statistics of the finished trajectories')
        m.event('statistics of finished trajectories')
