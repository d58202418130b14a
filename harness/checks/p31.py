"""The iterative reduction: what is removed, kept, restored and logged, against a reference of the documented procedure."""
import math
import os

import numpy as np
import pandas as pd
import yaml

from harness import fakes, gen, hist, odes

RULE = ('random chemistries with ad-hoc values and protected species, random important outputs, times and error limits; '
        'static and dynamic reductions with random rankings, and removals by hand with and without backtracking, in which '
        'the solver (a quick stand-in) may fail, raise or be interrupted; the state of the chemistry and the solution of '
        'every model run are recorded and the history is compared with a reference; non-trivial: at least one accepted '
        'and one restored removal')
QUICK, THOROUGH = 1000, 12000
CASE_LIMIT = 100
MIN_EVENTS = {'reductions': 90, 'dynamic reductions': 45, 'removals by hand': 140, 'accepted removals': 150,
              'restored after too large an error': 70, 'restored after a failed model': 18, 'refused by the chemistry': 90,
              'implicit removals': 30, 'kept because of an important output or a feed': 45,
              'reductions ended by unsuccessful removals': 20, 'states restored from logs': 900, 'refusals': 1200,
              'reductions with more unsuccessful removals than allowed in a row': 4}


def error(full, red, outputs, times):
    """(max, rms) of the mixed relative error."""
    mx, rms = 0., []
    for c in outputs:
        f = [fakes.interp(list(full['t']), list(full[c]), t) for t in times]
        r = [fakes.interp(list(red['t']), list(red[c]), t) for t in times]
        d = [2 * (b - a) / (a + max(f)) for a, b in zip(f, r)]
        mx = max([mx] + [abs(x) for x in d])
        rms.append(math.fsum(x * x for x in d) / len(d))
    return mx, math.sqrt(math.fsum(rms) / len(rms))


def close(a, b):
    return abs(float(a) - b) <= 1e-8 * abs(b) + 1e-9


class Audit:
    """The reference: follows the reduction step by step and judges every row of its history."""

    def __init__(self, m, chem, ref, outputs, feeds, times, max_error):
        self.m, self.chem, self.ref, self.outputs, self.times = m, chem, ref, outputs, times
        self.max_error = max_error
        self.name = {s: ref.sp[s]['name'] for s in ref.order}
        self.essential = {ref.by_name[o] for o in outputs if o in ref.by_name} | {ref.by_name[f] for f in feeds}
        start = [s for s in ref.species_ids() if s not in ref.all_protected()]
        self.eligible = {s for s in start if s not in self.essential}
        self.all = len(ref.species_ids())
        self.attempted = []
        self.base = self.last = None
        self.within = None      # the last state with the error in the limit

    def state(self):
        return hist.expected_visible(self.ref)

    def can(self, s):
        return s in self.eligible and s in self.ref.en_sp and s not in self.attempted

    def base_case(self, runs, row):
        m = self.m
        m.check(len(runs) == 1 and runs[0]['error'] is None, 'runs of the base case', len(runs))
        m.check(runs[0]['visible'] == self.state(), 'the base case is the full chemistry')
        self.base = self.last = runs[0]['sol']
        self.within = self.ref.clone()
        m.check(row['rm_success'] == True and row['total_removed'] == 0 and row['total_left'] == self.all and  # noqa
                row['error_base_max'] == row['error_base_rms'] == row['error_last_max'] == row['error_last_rms'] == 0.,
                'history of the base case', lambda: dict(row))

    def removal(self, s, score, runs, row, backtrack):
        """Judges one attempted removal; returns (accepted, error) with accepted None if it was not possible."""
        m, ref = self.m, self.ref
        self.attempted.append(s)
        what = 'removal of {}'.format(self.name[s])
        m.check(row['species'] == self.name[s] and (row['ranking_score'] == score or
                row['ranking_score'] != row['ranking_score'] and score != score), 'history of ' + 'a removal',
                lambda: (what, dict(row)))
        before = ref.clone()
        had = set(ref.species_ids())
        possible = ref.disable([s], [])
        gone = had - set(ref.species_ids())
        why = 'refused by the chemistry'
        if possible and gone & self.essential:
            possible, why = False, 'kept because of an important output or a feed'
            self.ref = before
        if not possible:
            m.check(not runs, 'model was run without the removal: ' + why, what)
            m.event(why)
        elif possible:
            m.check(len(runs) == 1, 'a model run for every removal', (what, len(runs)))
            m.check(runs[0]['visible'] == hist.expected_visible(ref), 'state of the chemistry in a reduced run',
                    lambda: (what, runs[0]['visible'], hist.expected_visible(ref)))
            if runs[0]['error'] is not None:
                possible = False
                self.ref = before
                m.event('restored after a failed model')
        if not possible:
            left = len(self.ref.species_ids())
            m.check(row['rm_success'] == False and not isinstance(row['run_id'], str) and  # noqa
                    math.isnan(row['error_base_max']) and math.isnan(row['error_last_max']), 'history of a failed removal',
                    lambda: (what, dict(row)))
            m.check(row['total_left'] == left and row['total_removed'] == self.all - left,
                    'numbers of species after a failed removal', lambda: (what, dict(row), left))
            return None, None
        sol = runs[0]['sol']
        left = len(ref.species_ids())
        m.check(row['rm_success'] == True and row['run_id'] == runs[0]['run_id'], 'history of a removal',  # noqa
                lambda: (what, dict(row)))
        m.check(row['total_left'] == left and row['total_removed'] == self.all - left,
                'numbers of species after a removal', lambda: (what, dict(row), left))
        extra = row['rm_additional']
        extra = set(extra.split(', ')) if isinstance(extra, str) else set()
        m.check(extra == {self.name[g] for g in gone - {s}}, 'implicitly removed species',
                lambda: (what, extra, [self.name[g] for g in gone]))
        if extra:
            m.event('implicit removals')
        mx, rms = error(self.base, sol, self.outputs, self.times)
        lmx, lrms = error(self.last, sol, self.outputs, self.times)
        m.check(close(row['error_base_max'], mx) and close(row['error_base_rms'], rms), 'error of the full chemistry',
                lambda: (what, dict(row), mx, rms))
        m.check(close(row['error_last_max'], lmx) and close(row['error_last_rms'], lrms), 'error of the last chemistry',
                lambda: (what, dict(row), lmx, lrms))
        limit = self.max_error / 100
        if abs(mx - limit) < 1e-7:
            from harness.core import Inconclusive
            raise Inconclusive('error at the limit')
        if backtrack and mx > limit:
            self.ref = self.within.clone()
            m.event('restored after too large an error')
            return False, mx
        if mx <= limit:
            self.within = self.ref.clone()
        self.last = sol
        m.event('accepted removals')
        return True, mx


def typical_errors(rng, spec, p, outputs, times):
    from pygmo_fwork.global_model import GlobalModel
    chem = gen.build(spec)
    gm = GlobalModel(chem, odes.passed(rng, p))
    sols = []
    with fakes.solver():
        for s in [None] + [s['name'] for s in spec['species'] if s['form']]:
            try:
                if s is not None:
                    chem.disable(species=[s])
                gm.run(log_results=False)
                sols.append(gm.get_solution())
            except Exception:       # not removable
                pass
            chem.reset()
    errs = [error(sols[0], x, outputs, times)[0] for x in sols[1:] if all(o in x for o in outputs)] if sols else []
    return sorted(e for e in errs if e > 1e-4 and math.isfinite(e))


def case(m, rng, i):
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.optichem.exceptions import ReductionInitError, ReductionRunError
    from pygmo_fwork.optichem.reduction import ReductionIterator
    mixed = rng.random() < .3       # long reductions with accepted and unsuccessful removals in turns
    spec = odes.gen_model_spec(rng, n_heavy=rng.choice([8, 9, 10, 12] if mixed else [4, 5, 6, 7, 8]))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    for _ in range(rng.choice([0, 0, 1, 2])):
        h.step(rng.choice(['adhoc', 'protect']))
    ref = h.ref
    p = odes.gen_params(rng, spec, ref=ref)
    neutral = [s['name'] for s in spec['species'] if s['q'] == 0 and s['form']]
    if not neutral:
        return
    if not p['feeds']:
        p['feeds'] = {rng.choice(neutral): 10.}
    gm = GlobalModel(chem, odes.passed(rng, p))
    heavy = [ref.sp[s]['name'] for s in ref.species_ids()]
    pool = ['Te', 'p', 'e'] + heavy
    outputs = rng.sample(pool[:3] if mixed else pool, rng.choice([1, 1, 2, 3]))
    times = [round(rng.choice([p['t_end'], p['t_end'] * rng.random(), 0.]), 10) for _ in range(rng.randint(1, 3))]
    times = [t for t in times if t <= p['t_end']] or [0.]
    max_error = rng.choice([.001, 1., 5., 20, 20., 40., 60., 90., 1e4])
    if mixed or rng.random() < .4:       # a limit between the typical errors, so that both kinds of removal are mixed
        errs = typical_errors(rng, spec, p, outputs, times)
        m.event('limits between typical errors', bool(errs))
        if errs:
            max_error = float('{:.3g}'.format(100 * errs[rng.randrange(len(errs))] * rng.choice([.7, 1.5])))
    root = os.path.join(m.tmp, 'reduction')
    os.makedirs(root)
    m.note(outputs=outputs, feeds=list(p['feeds']), times=times, max_error=max_error)
    start, start_visible = hist.values(chem), hist.visible(chem)
    audit = Audit(m, chem, ref, outputs, p['feeds'], times, max_error)
    rate = 0. if mixed else rng.choice([0., 0., .25])
    fates = {}

    def plan(k):
        if k and k not in fates:
            fates[k] = rng.choice(['value', 'fail', 'interrupt']) if rng.random() < rate else None
        return fates.get(k)
    runs, calls = [], []

    def record(model, kwargs, err):
        c = model.model.chemistry
        runs.append({'visible': hist.visible(c), 'error': err, 'run_id': kwargs.get('run_id'),
                     'sol': None if err else model.get_solution()})
    make = lambda name: ReductionIterator(
        gm, name, rng.choice([list, tuple])(outputs), rng.choice([list, tuple, np.array])(times), max_error,
        reduction_results_dir=root, verbose_level=rng.choice([0, 1, 2]))
    m.raises(ReductionInitError, 'results directory which does not exist', ReductionIterator, gm, 'x', outputs, times,
             max_error, reduction_results_dir=os.path.join(root, 'missing'))
    if not audit.eligible:
        m.raises(ReductionInitError, 'nothing to remove', make, 'empty')
        m.event('refusals', 2)
        return
    it = make('red')
    names = audit.name
    mode = rng.choice(['static', 'dynamic'] + ([] if mixed else ['static', 'manual', 'manual']))
    order = [s for s in ref.order if not ref.sp[s]['special']]

    def new_ranking():
        ids = list(order)
        rng.shuffle(ids)
        if rng.random() < (.1 if mixed else .3):
            ids = ids[:rng.randint(1, len(ids))]
        v = sorted(rng.choice([rng.random(), .5]) for _ in ids)
        return pd.Series(v, index=[names[s] for s in ids])
    accepted = restored = 0
    with fakes.solver(plan), fakes.recorded_runs(record):
        if mode == 'manual':
            m.raises(ReductionRunError, 'removal before the base case', it.remove_one_species_and_run,
                     names[next(iter(audit.eligible))])
            m.event('refusals')
            it.run_base_case()
            audit.base_case(runs[:], it.reduction_history.loc[0])
            m.raises(ReductionRunError, 'base case run twice', it.run_base_case)
            m.event('refusals')
            backtrack = rng.choice([True, False, None])
            todo = list(order) + rng.sample(order, min(2, len(order)))
            rng.shuffle(todo)
            for s in todo:
                m.check(it.can_be_removed(names[s]) == (s in audit.eligible and s in audit.ref.en_sp),
                        'species which can be removed', lambda: (names[s], it.can_be_removed(names[s])))
                if s in audit.attempted:
                    continue
                n = len(runs)
                if not audit.can(s):
                    m.raises(ReductionRunError, 'removal which is not possible', it.remove_one_species_and_run, names[s])
                    m.event('refusals')
                    m.check(len(runs) == n, 'refused removal ran the model')
                    m.check(hist.visible(chem) == audit.state(), 'refused removal changed the chemistry')
                    continue
                bt = rng.random() < .5 if backtrack is None else backtrack
                score = rng.choice([float('nan'), rng.random()])
                m.note(removals=[names[x] for x in audit.attempted] + [names[s]], backtrack=bt)
                row = it.remove_one_species_and_run(names[s], score, bt) if rng.random() < .5 or score == score else \
                    it.remove_one_species_and_run(names[s], backtrack_if_over_max_error=bt)
                m.event('removals by hand')
                ok, err = audit.removal(s, score, runs[n:], row, bt)
                m.check(hist.visible(chem) == audit.state(), 'state of the chemistry after a removal',
                        lambda: (names[s], hist.visible(chem), audit.state()))
                accepted += ok is True
                restored += ok is False
        else:
            streak = rng.choice([1, 1, 2, 3] if mixed else [0, 0, 1, 2, 50])
            kw = {'max_unsuccess_streak': streak} if streak or rng.random() < .5 else {}
            rankings = []

            def func(model):
                m.check(model is gm and gm.success(), 'ranking of a model which is not solved')
                calls.append((len(runs), hist.visible(chem)))
                rankings.append(new_ranking())
                return rankings[-1].copy()
            if mode == 'static':
                rankings.append(new_ranking())
                keep = rankings[0].copy()
                it.run_reduction(rankings[0], **kw)
                m.check(rankings[0].equals(keep), 'the ranking passed in was changed')
            else:
                it.run_reduction(func, **kw)
                m.event('dynamic reductions')
            m.event('reductions')
            h_ = it.reduction_history
            m.note(streak=streak, mode=mode, rankings=[list(r.items()) for r in rankings], history=h_.to_string())
            audit.base_case(runs[:1], h_.loc[0])
            k, index, bad, used = 1, 1, 0, 0
            unsuccessful = 0
            if mode == 'dynamic':
                m.check(calls[0] == (1, start_visible), 'ranking of the base case')
                used = 1
            queue = list(rankings[0].items())
            ended = False
            while queue:
                nm, score = queue.pop(0)
                s = ref.by_name[nm]
                if not audit.can(s):
                    continue
                m.check(index in h_.index, 'the reduction ended too early', (nm, index))
                row = h_.loc[index]
                m.check(row['species'] == nm, 'order of removals', (row['species'], nm))
                # runs which belong to this removal
                mine = runs[k:k + 1] if k < len(runs) and runs[k]['run_id'] == '{:02d}_disabled_{}'.format(index, nm) \
                    else []
                k += len(mine)
                index += 1
                ok, err = audit.removal(s, score, mine, row, True)
                accepted += ok is True
                restored += ok is False
                if ok is True:
                    bad = 0
                    if mode == 'dynamic':
                        m.check(used < len(calls) and calls[used] == (k, audit.state()),
                                'ranking is recalculated after every accepted removal', (used, len(calls)))
                        queue = list(rankings[used].items())
                        used += 1
                elif ok is False:
                    bad += 1
                    unsuccessful += 1
                if bad > streak:
                    m.event('reductions ended by unsuccessful removals')
                    ended = True
                    break
                if not any(x in audit.eligible for x in audit.ref.species_ids()):
                    ended = True
                    break
            m.event('reductions with more unsuccessful removals than allowed in a row', unsuccessful > streak + 1)
            m.check(index == len(h_) and k == len(runs), 'the reduction went on after its end',
                    lambda: (index, len(h_), k, len(runs)))
            m.check(mode == 'static' or used == len(calls), 'number of rankings', lambda: (used, calls))
            m.check(hist.visible(chem)['enabled species'] == start_visible['enabled species'] and
                    hist.visible(chem)['enabled reactions'] == start_visible['enabled reactions'],
                    'chemistry is complete again after the reduction')
    if mode == 'manual':
        chem.reset()
    m.check(not hist.diff(start, hist.values(chem)) and hist.visible(chem) == start_visible,
            'anything else of the chemistry changed', lambda: hist.diff(start, hist.values(chem)))
    if accepted and restored:
        m.signature(gen.describe(spec), mode, outputs, times)
    # --- logs
    run_dir = os.path.join(root, 'red')
    with open(os.path.join(run_dir, 'meta.yaml')) as s:
        meta = yaml.safe_load(s)
    m.check(meta == {'important_outputs': outputs, 'important_times': times, 'max_error': max_error}, 'meta data', meta)
    log = pd.read_csv(os.path.join(run_dir, 'reduction_history.csv'), index_col=0)
    m.check(len(log) == len(it.reduction_history) and list(log.columns) == list(it.reduction_history.columns),
            'logged history')
    for c in log.columns:
        for a, b in zip(log[c], it.reduction_history[c]):
            m.check(a == b or a != a and b != b or isinstance(a, float) and abs(a - b) <= 1e-9 * abs(b),
                    'logged history', (c, a, b))
    done = [r for r in runs if r['error'] is None]
    dirs = {d for d in os.listdir(run_dir) if os.path.isdir(os.path.join(run_dir, d))}
    m.check(dirs == {r['run_id'] for r in done} and len(dirs) == len(done), 'logs of the runs', sorted(dirs))
    for r in done:
        d = os.path.join(run_dir, r['run_id'])
        m.check(set(os.listdir(d)) == {'solution.csv', 'chemistry_attributes.yaml', 'model_attributes.yaml',
                                       'solver_log.yaml'}, 'files of a run', os.listdir(d))
        sol = pd.read_csv(os.path.join(d, 'solution.csv'), index_col=0)
        rows = [k for k in range(len(r['sol'])) if any(
            np.allclose(r['sol'].values[k], x, rtol=1e-12, atol=0) for x in sol.values)]
        m.check(len(rows) == len(sol) and {0, len(r['sol']) - 1} <= set(rows), 'logged solution', r['run_id'])
        other = gen.build(spec)
        other.load_chemistry_attributes(os.path.join(d, 'chemistry_attributes.yaml'))
        m.check(hist.visible(other) == r['visible'], 'state restored from the log of a run', r['run_id'])
        m.event('states restored from logs')
    m.raises(ReductionInitError, 'reduction run which exists', make, 'red')
    m.event('refusals', 2)
    if mode != 'manual':
        bad = pd.Series([2., 1.], index=[names[s] for s in order[:2]])
        if len(order) > 1:
            with fakes.solver():
                m.raises(AssertionError, 'ranking which is not sorted', make('unsorted').run_reduction, bad)
            m.event('refusals')
    m.sample('{} {} -> {}'.format(mode, outputs, it.reduction_history[['species', 'rm_success']].values.tolist()))
