"""A run of the model: which initial state it starts from, what it returns, and under which labels."""
import numpy as np
from scipy import constants as c

from harness import gen, hist, odes

RULE = ('random chemistry with physical surface data in a random state, random parameters, run from a given or built '
        'initial state, again after the chemistry was changed, and with a failing solver; every row of the solution, '
        'rates and wall fluxes is compared with the documented quantities in the state of that row; non-trivial: a '
        'successful run of at least 10 rows')
QUICK, THOROUGH = 80, 2500
CASE_LIMIT = 20
MIN_EVENTS = {'successful runs': 36, 'failed runs': 8, 'rows compared': 341, 'runs repeated': 25,
              'labels ambiguous by number': 15, 'tight integrations compared': 2,
              'chemistry changed after the run': 14, 'models not run yet': 30, 'incomplete chemistries refused': 30}


def rows(m, model, ref, p, sol, rates, fluxes, rng):
    ids, rids = ref.species_ids(), ref.reaction_ids()
    names = [ref.sp[i]['name'] for i in ids]
    m.check(list(sol.columns) == ['t'] + names + ['e', 'Te', 'Tg', 'p'], 'columns of the solution',
            lambda: (list(sol.columns), names))
    m.check(list(rates.columns) == ['t'] + rids, 'columns of the rates', lambda: (list(rates.columns), rids))
    m.check(list(fluxes.columns) == ['t'] + names, 'columns of the wall fluxes', lambda: (list(fluxes.columns), names))
    t = sol['t'].values
    m.check(np.array_equal(t, rates['t'].values) and np.array_equal(t, fluxes['t'].values),
            'results are on different times')
    m.check(t[0] == 0 and (np.diff(t) > 0).all(), 'times do not increase from zero', lambda: t.tolist())
    m.check(t[-1] == p['t_end'], 'run did not reach its end time', lambda: (t[-1], p['t_end']))
    pick = sorted({0, len(t) - 1} | {rng.randrange(len(t)) for _ in range(8)})
    for k in pick:
        row = sol.iloc[k]
        n = [row[nm] for nm in names]
        n_e = sum(x * ref.sp[i]['q'] for x, i in zip(n, ids))
        mag = sum(abs(x * ref.sp[i]['q']) for x, i in zip(n, ids))
        m.check(abs(row['e'] - n_e) <= 1e-9 * mag, 'electron density is not the charge density of the heavy species',
                lambda: (k, n_e, row['e']))
        m.check(abs(row['p'] - sum(n) * c.k * p['temp_gas']) <= 1e-9 * sum(abs(x) for x in n) * c.k * p['temp_gas'],
                'pressure is not the one of the densities', lambda: (k, row['p']))
        m.check(row['Tg'] == p['temp_gas'], 'gas temperature', row['Tg'])
        if min(n) <= 0 or n_e <= 1e-6 * mag:
            m.event('rows outside of the domain')
            continue
        te = row['Te']
        m.check(te >= p['temp_gas'] * c.k / c.e * (1 - 1e-9), 'electrons colder than the gas', lambda: (k, te))
        y = np.array(n + [1.5 * n_e * te])
        out, scale = odes.reference(ref, p, y)
        m.event('rows compared')
        # the labels matter here, the formulae are judged elsewhere
        for j, rid in enumerate(rids):
            exp = out['reaction_rates'][j]
            m.check(abs(exp - rates.iloc[k][rid]) <= 1e-5 * abs(exp) + 1e-300, 'rate of a reaction',
                    lambda: (k, rid, exp, rates.iloc[k][rid]))
        for j, nm in enumerate(names):
            exp = out['wall_fluxes'][j]
            # gamma, lambda and the like lose digits where ions nearly cancel
            m.check(abs(exp - fluxes.iloc[k][nm]) <= 1e-5 * abs(exp) * max(1., mag / n_e) + 1e-300,
                    'wall flux of a species', lambda: (k, nm, exp, fluxes.iloc[k][nm]))
    return pick


def init(rng, ref, p):
    y = odes.gen_state(rng, ref, p, hostile=False)
    names = [ref.sp[i]['name'] for i in ref.species_ids()]
    items = list(zip(names, y[:-1].tolist()))
    rng.shuffle(items)
    return dict(items), 10 ** rng.uniform(-.5, 1)


def collect(model):
    return model.get_solution(), model.get_rates(), model.get_wall_fluxes()


def not_yet(m, model):
    """Nothing can be had from a model which was not run."""
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError
    m.check(not model.success(), 'a model which was not run has succeeded')
    for getter in ('get_solution', 'get_rates', 'get_wall_fluxes', 'get_solution_final', 'get_rates_final',
                   'get_wall_fluxes_final'):
        m.raises(ModelSolutionError, 'results before the run', getattr(model, getter))
    m.event('models not run yet')


class Without:
    """A chemistry without some of what a model needs."""
    def __init__(self, chem, name, instead):
        for k in dir(chem):
            if not k.startswith('__') and k != name:
                setattr(self, k, getattr(chem, k))
        if instead is not None:
            setattr(self, name, instead)


def incomplete(m, rng, chem, passed):
    from pygmo_fwork.pygmol.exceptions import ModelInitError
    from pygmo_fwork.pygmol.model import Model
    name = rng.choice(['get_species_name', 'get_species_charge', 'get_species_mass', 'get_species_lj_sigma',
                       'get_species_stick_coef', 'get_reactions_arrh_a', 'get_reactions_arrh_b', 'get_reactions_arrh_c',
                       'get_reactions_el_en_loss', 'get_reactions_elastic', 'get_reactions_stoich_coefs_electron',
                       'get_reactions_stoich_coefs_arbitrary', 'get_reactions_id', 'get_return_matrix',
                       'get_stoichiomatrix', 'num_species', 'num_reactions'])
    m.raises(ModelInitError, 'model of a chemistry without ' + name, Model, Without(chem, name, rng.choice([None, 7, 'x'])),
             passed)
    m.event('incomplete chemistries refused')


def case(m, rng, i):
    import scipy.integrate
    import pygmo_fwork.pygmol.model as module
    from pygmo_fwork.pygmol.exceptions import \
        ModelSolutionError, EquationsParametersConsistencyError, InitialSolutionError
    small = rng.random() < .3
    spec = odes.gen_model_spec(rng, n_heavy=rng.choice([2, 2, 3, 3, 4, 5, 6]) if small else None,
                               n_reactions=rng.randint(1, 4) if small else None)
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    if rng.random() < .4:
        h.random_state()
    ref = h.ref
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    passed = odes.passed(rng, p)
    model = module.Model(chem, passed)
    not_yet(m, module.Model(chem, passed) if rng.random() < .5 else model)
    incomplete(m, rng, chem, passed)
    good = 0
    for rnd in range(rng.choice([1, 2, 3])):
        if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
            break
        if not set(p['feeds']) <= {ref.sp[s]['name'] for s in ref.species_ids()}:
            m.raises(EquationsParametersConsistencyError, 'run with a disabled feed species', model.run)
            return
        p_now = dict(p, feeds={n: f for n, f in p['feeds'].items()})
        n0, te0 = init(rng, ref, p) if rng.random() < .7 else (None, None)
        kw = {} if n0 is None else {'init_n': n0, 'init_el_temp': te0}
        m.note(init=kw)
        try:
            model.run(**kw)
            ok = True
        except ModelSolutionError:
            ok = False
        m.event('successful runs' if ok else 'failed runs')
        m.check(bool(model.success()) == ok, 'a failed run counts as a success', lambda: (ok, model.success()))
        fresh = module.Model(gen_copy(chem), passed)
        try:
            fresh.run(**kw)
            ok2 = True
        except ModelSolutionError:
            ok2 = False
        m.check(ok == ok2, 'the outcome depends on earlier runs')
        m.event('runs repeated')
        if not ok:
            h.random_state(2)
            continue
        good += 1
        sol, rates, fluxes = collect(model)
        for a, b, what in zip((sol, rates, fluxes), collect(fresh), ('solution', 'rates', 'wall fluxes')):
            m.check(list(a.columns) == list(b.columns) and np.array_equal(a.values, b.values, equal_nan=True),
                    'the {} depend on earlier runs'.format(what))
        if len(ref.species_ids()) == len(ref.reaction_ids()) or len(ref.reaction_ids()) == 1 or \
                len(ref.species_ids()) == 1 or len(ref.species_ids()) + 1 == len(ref.reaction_ids()):
            m.event('labels ambiguous by number')
        rows(m, model, ref, p_now, sol, rates, fluxes, rng)
        if n0 is not None:
            row = sol.iloc[0]
            for nm, v in n0.items():
                m.check(row[nm] == v, 'run does not start from the given densities', lambda: (nm, v, row[nm]))
            m.check(abs(row['Te'] - max(te0, p['temp_gas'] * c.k / c.e)) <= 1e-9 * te0,
                    'run does not start from the given electron temperature', lambda: (te0, row['Te']))
        # final values are the last row, copies are copies
        fin, rfin, ffin = model.get_solution_final(), model.get_rates_final(), model.get_wall_fluxes_final()
        m.check(fin.to_dict() == sol.iloc[-1].to_dict(), 'final solution is not the last row')
        m.check(hist.same(rates.iloc[-1].drop('t').to_dict(), rfin.to_dict()), 'final rates are not the last row')
        m.check(hist.same(fluxes.iloc[-1].drop('t').to_dict(), ffin.to_dict()), 'final fluxes are not the last row')
        keep, kept = sol.copy(), (sol.copy(), rates.copy(), fluxes.copy())
        for df in (sol, rates, fluxes):
            df.iloc[:, :] = -1.
        again = model.get_solution()
        m.check(np.array_equal(again.values, keep.values, equal_nan=True), 'returned solution is not a copy')
        if len(keep) >= 10:
            m.signature(gen.describe(spec), sorted(ref.en_r), p)
            m.sample({'chemistry': gen.describe(spec), 'parameters': p, 'rows': len(keep),
                      'final': fin.to_dict()})
        if rnd == 0:
            tight(m, rng, model, chem, ref, p, keep, passed)
        before = (list(ref.species_ids()), list(ref.reaction_ids()))
        if rng.random() < .3 and ref.reaction_ids():        # as many reactions as there were, but others
            h.step('reset')
            h.step('disable')
        else:
            h.random_state(rng.randint(1, 3))
        if before != (list(ref.species_ids()), list(ref.reaction_ids())):
            m.event('chemistry changed after the run')
        for a, b, what in zip(kept, collect(model), ('solution', 'rates', 'wall fluxes')):
            m.check(list(a.columns) == list(b.columns) and np.array_equal(a.values, b.values, equal_nan=True),
                    'the {} of a run change with the chemistry'.format(what), lambda: (list(a.columns), list(b.columns)))
    # a solver which gives up, or breaks down, after a success
    original = module.solve_ivp if hasattr(module, 'solve_ivp') else None
    if original is None or not good or not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0] or \
            not set(p['feeds']) <= {ref.sp[s]['name'] for s in ref.species_ids()}:
        return
    how = rng.choice(['unsuccessful', 'ValueError', 'refused'])
    rows_left = rng.randint(1, 3)
    if model.sol_primary is None or not model.success():
        try:
            model.run()
        except ModelSolutionError:
            return

    def broken(*a, **k):
        if how == 'ValueError':
            raise ValueError('injected')
        res = original(*a, **k)
        res.t, res.y = res.t[:rows_left], res.y[:, :rows_left]
        res.success, res.status, res.message = False, -1, 'injected'
        return res
    if how == 'refused':
        names = [ref.sp[s]['name'] for s in ref.species_ids()]
        bad = dict.fromkeys(names, 1e15)
        if rng.random() < .5:
            bad.pop(rng.choice(names))
        elif rng.random() < .5:
            bad['Xx'] = 1.
        else:
            bad = {nm: 1e15 * (ref.sp[s]['q'] <= 0) for nm, s in zip(names, ref.species_ids())}
        m.raises(InitialSolutionError, 'run from densities of other species', model.run, init_n=bad)
        m.event('refused runs after a success')
    else:
        module.solve_ivp = broken
        try:
            m.raises(ModelSolutionError, 'a failing solver is not reported', model.run)
        finally:
            module.solve_ivp = original
        m.event('injected solver failures')
    m.check(not model.success(), 'a failed run counts as a success', how)
    for getter in (model.get_solution, model.get_rates, model.get_wall_fluxes):
        if how != 'unsuccessful':
            m.raises(ModelSolutionError, 'results left after a failed run', getter)
            continue
        try:        # what the solver had until then may be looked at
            left = getter()
        except ModelSolutionError:
            continue
        m.check(len(left) <= rows_left, 'results of an earlier run after a failed one', lambda: len(left))


def gen_copy(chem):
    return chem.copy()


def tight(m, rng, model, chem, ref, p, sol, passed):
    """The returned final state against an independent, tight integration of the same equations."""
    from scipy.integrate import solve_ivp
    from pygmo_fwork.pygmol.equations import Equations
    if len(set(p['t_power'])) < len(p['t_power']):
        return
    f = Equations(chem, passed).get_objective_functions()[0]
    names = [ref.sp[i]['name'] for i in ref.species_ids()]
    row = sol.iloc[0]
    y0 = np.array([row[nm] for nm in names] + [1.5 * row['e'] * row['Te']])

    def go(y, rtol):
        calls = [0]

        def g(t, yy):
            calls[0] += 1
            if calls[0] > 3000:
                raise ValueError('too long')
            return f(t, yy)
        try:
            r = solve_ivp(g, (0, p['t_end']), y, method='BDF', rtol=rtol, atol=1e-6)
        except ValueError:
            return None
        return r.y[:, -1] if r.success else None
    a, b = go(y0, 1e-6), go(y0 * 1.002, 1e-5)
    if a is None or b is None:
        m.event('tight integrations failed')
        return
    dens = slice(0, -1)
    size = np.abs(a[dens]).max()
    if (np.abs(a - b)[dens] > .02 * np.abs(a[dens]) + 1e-3 * size).any():
        m.event('tight integrations ill-conditioned')
        return
    got = sol.iloc[-1][names].values.astype(float)
    m.event('tight integrations compared')
    m.check((np.abs(got - a[dens]) <= .1 * np.abs(a[dens]) + 3e-3 * size).all(),
            'final densities are not those of the equations', lambda: (got.tolist(), a.tolist()))
