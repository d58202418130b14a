"""The global model as a state machine: results only after a success, logs only where and when they belong."""
import os

import numpy as np

from harness import gen, hist, odes

RULE = ('random chemistry and parameters; a random history of runs (plain, logged, overwriting, compressed, refused, with '
        'a backend which fails or raises), explicit logging, chemistry changes and reloads of parameters; after every '
        'step the availability of results and the whole results tree are compared with a reference; non-trivial: a '
        'history with a success, a failure and a written log')
QUICK, THOROUGH = 100, 2500
CASE_LIMIT = 25
MIN_EVENTS = {'steps': 150, 'logs written': 50, 'failed runs': 33, 'refused runs': 16, 'overwritten logs': 6,
              'reloads': 15, 'results refused': 300}

FILES = {'solution.csv', 'rates.csv', 'wall_fluxes.csv', 'chemistry_attributes.yaml', 'model_attributes.yaml',
         'solver_log.yaml'}
GETTERS = ['get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes',
           'get_wall_fluxes_final']


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as s:
                out[os.path.relpath(p, root)] = s.read()
    return out


def case(m, rng, i):
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork import exceptions as ex
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError, EquationsParametersConsistencyError
    spec = odes.gen_model_spec(rng, n_heavy=rng.choice([2, 3, 4, 5]))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    ref = h.ref
    p = odes.gen_params(rng, spec, ref=ref)
    p['feeds'] = {}
    gm = GlobalModel(chem, odes.passed(rng, p), backend=rng.choice(['PyGMol', 'pygmol', 'PYGMOL']))
    root = os.path.join(m.tmp, 'results')
    os.makedirs(os.path.join(root, 'unrelated'))
    with open(os.path.join(root, 'unrelated', 'keep.txt'), 'w') as f:
        f.write('keep')
    with open(os.path.join(m.tmp, 'outside.txt'), 'w') as f:
        f.write('keep')
    for x in ('a', 'b'):        # directories of the same name from elsewhere
        if rng.random() < .2:
            os.makedirs(os.path.join(root, x))
            if rng.random() < .5:
                with open(os.path.join(root, x, 'mine.txt'), 'w') as f:
                    f.write('mine')
            m.event('directories of a run id beforehand')
    state, logs, log = None, {}, []
    seen = set()
    before = tree(m.tmp)

    def step(text):
        log.append(text)
        m.note(steps=log)
        m.event('steps')

    def settle(writes=None, removed_ok=False):
        """Nothing but the written run directory may have changed."""
        nonlocal before
        now = tree(m.tmp)
        pre = 'results/{}'.format(writes) if writes else None
        other = {k: v for k, v in now.items() if not (pre and (k == pre or k.startswith(pre + '/')))}
        was = {k: v for k, v in before.items() if not (pre and (k == pre or k.startswith(pre + '/')))}
        m.check(other == was, 'files outside of the run directory changed',
                lambda: {k: (k in was, k in other) for k in set(was) ^ set(other)} or
                [k for k in was if was[k] != other[k]])
        if writes:
            got = {k[len(pre) + 1:] for k in now if k.startswith(pre + '/')}
            m.check(got == FILES, 'files of a logged run', lambda: sorted(got))
            m.event('logs written')
            seen.add('log')
        before = now

    def results():
        if state is True:
            m.check(gm.success() is True, 'success is not reported')
            for g in rng.sample(GETTERS, 3):
                a, b = getattr(gm, g)(), getattr(gm.model, g)()
                m.check(list(getattr(a, 'columns', a.index)) == list(getattr(b, 'columns', b.index)) and
                        np.array_equal(a.values, b.values, equal_nan=True), 'result of the wrapper: ' + g)
        else:
            if state is None:
                m.raises(ex.BackendNoRunError, 'success known without a run', gm.success)
            else:
                m.check(gm.success() is False, 'success of a failed run')
            exc = ex.BackendNoRunError if state is None else ex.BackendRunUnsuccessfulError
            for g in GETTERS:
                m.event('results refused')
                m.raises(exc, 'results of a {} run: {}'.format('failed' if state is False else 'not executed', g),
                         getattr(gm, g))
            m.raises(exc, 'log of a {} run'.format('failed' if state is False else 'not executed'), gm.log_results,
                     rng.choice(['nothing', 'a', 'b', 'run 3', 'x.y']), root, {}, overwrite=rng.random() < .7)
            settle()
        m.check(gm.num_species() == len(ref.species_ids()) and gm.num_reactions() == len(ref.reaction_ids()),
                'numbers of species and reactions')
    results()
    for k in range(rng.randint(6, 9)):
        neutral = [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]
        if not neutral:
            break
        op = rng.choice(['run', 'run', 'run', 'run', 'fail', 'fail', 'refuse', 'chem', 'reload', 'log', 'nolog'])
        run_id = rng.choice(['a', 'b', 'run 3', 'x.y'])
        kw = {'verbose': rng.random() < .3, 'overwrite': rng.random() < .5, 'compress_logs': rng.random() < .3}
        if rng.random() < .5:
            kw['init_el_temp'] = 10 ** rng.uniform(-.5, 1)
        exists = 'results/' + run_id in before
        if op in ('run', 'nolog'):
            step('{} {} {}'.format(op, run_id, kw))
            try:
                if op == 'nolog':
                    gm.run(log_results=False, **kw)
                else:
                    gm.run(run_id=run_id, log_to=root, **kw)
                state = True
                m.check(op == 'nolog' or not exists or kw['overwrite'], 'an existing log was overwritten', run_id)
                settle(run_id if op == 'run' else None)
                if op == 'run' and exists:
                    m.event('overwritten logs')
            except ModelSolutionError:
                state = False
                m.event('failed runs')
                settle()
            except ex.GlobalModelLogError:
                m.check(op == 'run' and exists and not kw['overwrite'], 'logging refused', run_id)
                m.event('existing log kept')
                state = True
                settle()
            seen.add(state)
        elif op == 'fail':
            how = rng.choice(['raise', 'value', 'unsuccessful'])
            step('fail {} {} {}'.format(how, run_id, kw))
            real_run, real_success = gm.model.run, gm.model.success

            def broken(*a, **kk):
                if how == 'raise':
                    raise ModelSolutionError('injected')
                if how == 'value':
                    raise KeyError('injected')
                try:
                    real_run(*a, **kk)
                except ModelSolutionError:
                    pass
                gm.model.success = lambda: False
            gm.model.run = broken
            try:
                gm.run(run_id=run_id, log_to=root, **kw)
            except (ModelSolutionError, KeyError) as e:
                m.check('injected' in str(e), 'wrong error', str(e))
            del gm.model.run
            if 'success' in gm.model.__dict__:
                del gm.model.success
            state = False
            seen.add(False)
            m.event('failed runs')
            settle()
        elif op == 'refuse':
            what = rng.choice(['run_id', 'run_id none', 'log_to', 'te', 'init_n', 'dangerous id'])
            step('refuse ' + what)
            bad = {'run_id': dict(run_id=5, log_to=root), 'run_id none': dict(log_to=root),
                   'log_to': dict(run_id=run_id, log_to=os.path.join(root, 'missing')),
                   'te': dict(run_id=run_id, log_to=root, init_el_temp=rng.choice([0, -1.])),
                   'init_n': dict(run_id=run_id, log_to=root, init_n={'Xx': 1.}),
                   'dangerous id': dict(run_id=rng.choice(['', '.', '..', '../results', 'a/..', './']), log_to=root)}[what]
            exc = {'log_to': ex.GlobalModelLogError, 'te': ex.GlobalModelInitialGuessError,
                   'init_n': ex.GlobalModelInitialGuessError}.get(what, ex.GlobalModelAttributeError)
            kw.pop('init_el_temp', None)
            m.raises(exc, 'accepted: ' + what, gm.run, **dict(kw, **bad))
            m.event('refused runs')
            state = False
            settle()
        elif op == 'chem':
            step('chemistry changed')
            h.random_state(2)
            if state is True:
                # what the results are labelled by has changed, the next thing is a run
                if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
                    break
                try:
                    gm.run(log_results=False, verbose=False)
                    state = True
                    names = [ref.sp[s]['name'] for s in ref.species_ids()]
                    sol = gm.get_solution()
                    m.check(list(sol.columns[1:-4]) == names, 'a changed chemistry did not reach the run',
                            lambda: (list(sol.columns), names))
                    rids = ref.reaction_ids()
                    m.check(list(gm.get_rates().columns[1:]) == rids, 'a changed chemistry did not reach the run')
                    m.event('runs after a change of the chemistry')
                except ModelSolutionError:
                    state = False
        elif op == 'reload':
            step('reload')
            p = odes.gen_params(rng, spec, ref=ref)
            p['feeds'] = {}
            gm.reload_model_parameters(odes.passed(rng, p))
            m.check(gm.model.chemistry is chem, 'reload changed the chemistry')
            m.event('reloads')
            state = None
            settle()
            n0 = gm.generate_initial_n()
            from scipy import constants as c
            m.check(abs(sum(n0.values()) * c.k * p['temp_gas'] / p['pressure'] - 1) < 1e-9,
                    'reloaded parameters are not used', lambda: (n0, p))
        elif op == 'log' and state is True:
            step('log ' + run_id)
            par = {'a': 1}
            try:
                gm.log_results(run_id, root, par, overwrite=kw['overwrite'], compress=kw['compress_logs'])
                m.check(not exists or kw['overwrite'], 'an existing log was overwritten', run_id)
                settle(run_id)
            except ex.GlobalModelLogError:
                m.check(exists and not kw['overwrite'], 'logging refused', run_id)
                settle()
            m.raises(ex.GlobalModelLogError, 'log to a missing directory', gm.log_results, 'a',
                     os.path.join(root, 'missing'), par)
            m.raises(ex.GlobalModelAttributeError, 'log under a dangerous id', gm.log_results,
                     rng.choice(['', '.', '..', '../results']), root, par, overwrite=True)
            settle()
        results()
    if {'log', True, False} <= seen:
        m.signature(gen.describe(spec), log)
        m.sample({'chemistry': gen.describe(spec), 'steps': log})
