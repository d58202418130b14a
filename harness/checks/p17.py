"""Initial state: quasi-neutral, at the wanted pressure, fed species in proportion to their feeds; bad ones refused."""
import numpy as np
from scipy import constants as c

from harness import gen, hist, odes

RULE = ('random chemistry (charges up to two, negative ions, excited states) in a random state, random parameters and '
        'ratios; the generated initial densities and the first row of runs started without any are compared with the '
        'documented ratios; then inconsistent initial values are passed; non-trivial: at least one fed and one other '
        'neutral species')
QUICK, THOROUGH = 260, 5000
CASE_LIMIT = 10
MIN_EVENTS = {'initial states judged': 250, 'with negative ions': 50, 'without feeds': 40, 'refused initial states': 364,
              'first rows judged': 33, 'given initial states judged': 20}


def judge(m, ref, p, n0, ion, neg_ratio, non_feed, what):
    ids = ref.species_ids()
    names = [ref.sp[i]['name'] for i in ids]
    m.check(set(n0) == set(names), what + ': species', lambda: (sorted(n0), sorted(names)))
    n_tot = p['pressure'] / (c.k * p['temp_gas'])
    dens = {i: n0[ref.sp[i]['name']] for i in ids}
    m.check(all(v > 0 and v == v for v in dens.values()), what + ': density not positive', lambda: n0)
    near = lambda a, b, rel=1e-9: abs(a - b) <= rel * abs(b)
    m.check(near(sum(dens.values()), n_tot), what + ': not at the wanted pressure',
            lambda: (sum(dens.values()), n_tot))
    q = {i: ref.sp[i]['q'] for i in ids}
    n_e = sum(dens[i] * q[i] for i in ids)
    mag = sum(dens[i] * abs(q[i]) for i in ids)
    m.check(abs(n_e - ion * n_tot) <= 1e-9 * mag, what + ': electrons do not have the wanted density',
            lambda: (n_e, ion * n_tot))
    pos = [dens[i] for i in ids if q[i] > 0]
    m.check(max(pos) <= min(pos) * (1 + 1e-9), what + ': positive ions differ', lambda: n0)
    for i in ids:
        if q[i] < 0:
            m.check(near(dens[i], neg_ratio * n_tot), what + ': negative ion density', lambda: n0)
            m.event('with negative ions')
    fed = [i for i in ids if p['feeds'].get(ref.sp[i]['name'])]
    other = [i for i in ids if q[i] == 0 and i not in fed]
    if fed:
        for i in other:
            m.check(near(dens[i], non_feed * n_tot), what + ': species which is not fed', lambda: n0)
        tot_f, tot_n = sum(p['feeds'][ref.sp[i]['name']] for i in fed), sum(dens[i] for i in fed)
        for i in fed:
            m.check(near(dens[i] / tot_n, p['feeds'][ref.sp[i]['name']] / tot_f),
                    what + ': densities of fed species are not in proportion to the feeds', lambda: (n0, p['feeds']))
    else:
        m.event('without feeds')
        vals = [dens[i] for i in other]
        m.check(max(vals) <= min(vals) * (1 + 1e-9), what + ': neutral species differ though none is fed', lambda: n0)
    m.event('initial states judged')
    return fed, other


def case(m, rng, i):
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.exceptions import GlobalModelInitialGuessError
    from pygmo_fwork.pygmol.model import Model
    from pygmo_fwork.pygmol import exceptions as pex
    spec = odes.gen_model_spec(rng)
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    h.random_state(rng.choice([0, 0, 1, 2]))
    ref = h.ref
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    passed = odes.passed(rng, p)
    gm = GlobalModel(chem, passed, backend=rng.choice(['PyGMol', 'pygmol']))
    judge(m, ref, p, gm.generate_initial_n(), 1e-15, 1e-15, 1e-15, 'default initial state')
    for _ in range(2):
        ion, neg, oth = (10 ** rng.uniform(-15, -4) for _ in range(3))
        n0 = gm.generate_initial_n(ionisation_degree=ion, neg_ion_fraction=neg, non_feed_sp_fraction=oth)
        fed, other = judge(m, ref, p, n0, ion, neg, oth, 'generated initial state')
        gm.validate_initial_n(n0)
    # a run without initial densities starts from the same kind of state
    model = Model(chem, passed)
    te0 = 10 ** rng.uniform(-.5, 1)
    try:
        if rng.random() < .7:
            if rng.random() < .5:
                model.run(init_el_temp=te0)
                sol = model.get_solution()
            else:
                gm.run(init_el_temp=te0, log_results=False, verbose=False)
                sol = gm.get_solution()
            row = sol.iloc[0]
            judge(m, ref, p, {ref.sp[s]['name']: row[ref.sp[s]['name']] for s in ref.species_ids()}, 1e-15, 1e-15,
                  1e-15, 'start of a run')
            mag = sum(row[ref.sp[s]['name']] * abs(ref.sp[s]['q']) for s in ref.species_ids())
            # rho and n_e are both tiny here, and n_e is a difference
            m.check(abs(row['Te'] - max(te0, p['temp_gas'] * c.k / c.e)) <= 1e-6 * te0 * max(1., mag / row['e']),
                    'start of a run: electron temperature', lambda: (te0, row['Te']))
            m.event('first rows judged')
    except pex.ModelSolutionError:
        m.event('failed runs')
    # densities given by the user are used as they are, in whatever order
    if rng.random() < .5:
        y = odes.gen_state(rng, ref, p, hostile=False)
        items = [(ref.sp[s]['name'], float(v)) for s, v in zip(ref.species_ids(), y)]
        rng.shuffle(items)
        given = dict(items)
        try:
            if rng.random() < .5:
                model.run(init_el_temp=te0, init_n=dict(given))
                row = model.get_solution().iloc[0]
            else:
                gm.run(init_el_temp=te0, init_n=given, log_results=False, verbose=False)
                row = gm.get_solution().iloc[0]
            m.check(row['t'] == 0 and all(row[k] == v for k, v in given.items()), 'given densities not used as they are',
                    lambda: (given, row.to_dict()))
            m.check(list(given.items()) == items, 'given densities changed')
            m.check(abs(row['Te'] - max(te0, p['temp_gas'] * c.k / c.e)) <= 1e-6 * te0, 'given electron temperature',
                    lambda: (te0, row['Te']))
            m.event('given initial states judged')
        except pex.ModelSolutionError:
            m.event('failed runs')
    # inconsistent ones
    names = [ref.sp[s]['name'] for s in ref.species_ids()]
    neg_names = [ref.sp[s]['name'] for s in ref.species_ids() if ref.sp[s]['q'] < 0]
    bad = []
    x = dict(n0)
    x.pop(rng.choice(names))
    bad.append(('missing species', x))
    bad.append(('unknown species', dict(n0, **{rng.choice(['e', 'M', 'Xx', 'X+']): 1e10})))
    x = dict(n0)
    nm = rng.choice(names)
    x[nm + '(v=9)'] = x.pop(nm)
    bad.append(('renamed species', x))
    ids = [ref.sp[s]['id'] for s in ref.species_ids()]
    bad.append(('ids instead of names', dict(zip(ids, n0.values()))))
    zero = {k: (0. if next(ref.sp[s]['q'] for s in ref.species_ids() if ref.sp[s]['name'] == k) else v)
            for k, v in n0.items()}
    bad.append(('no charge', zero))
    if neg_names:
        bad.append(('negative charge', dict(n0, **{rng.choice(neg_names): sum(n0.values()) * 1e3})))
    dis = [ref.sp[s]['name'] for s in ref.order if s not in ref.en_sp and not ref.sp[s]['special']]
    if dis:
        bad.append(('disabled species', dict(n0, **{rng.choice(dis): 1e12})))
    for what, x in bad:
        m.event('refused initial states')
        m.raises(GlobalModelInitialGuessError, 'accepted: ' + what, gm.validate_initial_n, x)
        m.raises(GlobalModelInitialGuessError, 'run from: ' + what, gm.run, init_n=x, log_results=False, verbose=False)
        m.check(gm.success() is False, 'a refused run counts as a success', what)
        m.raises(pex.InitialSolutionError, 'model run from: ' + what, model.run, init_n=x)
    for te in (0, 0., -1.):
        m.raises(GlobalModelInitialGuessError, 'run with electron temperature not positive', gm.run, init_el_temp=te,
                 log_results=False, verbose=False)
    if fed and other:
        m.signature(gen.describe(spec), sorted(ref.en_r), p)
        m.sample({'chemistry': gen.describe(spec), 'parameters': p, 'initial densities': n0})
