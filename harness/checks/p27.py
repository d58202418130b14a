"""Morris factors mapped to rate coefficients and to return coefficients."""
import math

import numpy as np
import pandas as pd

from harness import gen, hist

RULE = ('random chemistry driven into a random state (disabled, ad-hoc, protected); random factor vectors mapped to rate '
        'coefficients by reactions and by species, and sequences of random factors mapped to return coefficients of '
        'several pairs with repeats, on a copy of the chemistry; every new value is recomputed from the specification, '
        'what must not change is compared before and after; faulty arguments must be refused and leave everything as it '
        'was; non-trivial: at least 3 reactions and 2 enabled species')
QUICK, THOROUGH = 300, 16000
MIN_EVENTS = {'coefficients by reactions': 700, 'coefficients by species': 700, 'return coefficients mapped': 104,
              'self coefficients compensated': 17, 'refusals of return coefficients': 190,
              'repeated return coefficients': 8, 'refusals of factor vectors': 600, 'species not involved': 1000}


def rel(a, b):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b), 1e-300)


def case(m, rng, i):
    from pygmo_fwork.optichem.exceptions import MorrisInputsError
    from pygmo_fwork.optichem.morris import MorrisMethod
    spec = gen.gen_spec(rng, extra_attrs=False, surface=rng.choice(['random', 'random', 'physical']))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    h.random_state()
    ref = h.ref
    mm = MorrisMethod(chem, {})
    before = hist.values(chem)
    work = chem.copy()
    rids, sids = ref.reaction_ids(), ref.species_ids()
    if len(rids) >= 3 and len(sids) >= 2:
        m.signature(gen.describe(spec), h.log)

    # --- factors of reactions
    nominal = pd.Series({r: ref.arrh_a(r, si=False) for r in rids}, dtype=float)
    x = np.array([rng.choice([0., 1., .5, rng.random(), rng.choice([.05, .15, .95])]) for _ in rids])
    series = rng.random() < .5
    xa = pd.Series(x.copy(), index=nominal.index) if rng.random() < .4 and series else x.copy()
    na = nominal.copy() if series else nominal.values.copy()
    res = mm._map_reactions_factors_to_k(xa, na)
    m.check(isinstance(res, pd.Series) == series and (not series or list(res.index) == rids), 'type and index kept')
    for k, r in enumerate(rids):
        m.event('coefficients by reactions')
        got = float(res.iloc[k] if series else res[k])
        m.check(rel(got, 2 * nominal[r] * x[k]), 'factor of a reaction', (r, nominal[r], x[k], got))
    m.check(list(xa) == list(x) and list(na) == list(nominal.values), 'mapping changed its arguments')
    # --- factors of species
    y = np.array([rng.choice([0., 1., .5, rng.random(), rng.choice([.05, .15, .95])]) for _ in sids])
    ya = pd.Series(y.copy(), index=sids) if rng.random() < .4 else y.copy()
    na = nominal.copy() if rng.random() < .6 else nominal.values.copy()
    res = mm._map_species_factors_to_k(ya, na, work)
    for k, r in enumerate(rids):
        want = nominal[r]
        involved = set(ref.r[r]['lhs'] + ref.r[r]['rhs'])
        for s, f in zip(sids, y):
            if s in involved:
                want *= 2 * f
            else:
                m.event('species not involved')
        got = float(np.array(res)[k])
        m.event('coefficients by species')
        m.check(rel(got, want), 'factors of species', (r, nominal[r], want, got))
    if isinstance(na, pd.Series):
        m.check(list(res.index) == rids, 'index kept')
    m.check(list(ya) == list(y) and list(na) == list(nominal.values), 'mapping changed its arguments')
    m.check(not hist.diff(before, hist.values(chem)) and not hist.diff(before, hist.values(work)),
            'mapping of rate coefficients changed a chemistry')
    # --- refusals
    for f in (lambda: mm._map_reactions_factors_to_k(x[:-1], nominal.values),
              lambda: mm._map_reactions_factors_to_k(np.append(x, .5), nominal),
              lambda: mm._map_species_factors_to_k(y[:-1], nominal, work),
              lambda: mm._map_species_factors_to_k(np.append(y, .5), nominal, work),
              lambda: mm._map_species_factors_to_k(y, nominal.values[:-1], work)):
        m.raises(MorrisInputsError, 'vectors of another length refused', f)
        m.event('refusals of factor vectors')
    if len(rids) > 1:
        flipped = pd.Series(x[::-1], index=rids[::-1])
        m.raises(MorrisInputsError, 'vectors of another order refused',
                 lambda: mm._map_reactions_factors_to_k(flipped, nominal))
        m.raises(MorrisInputsError, 'vectors of another order refused',
                 lambda: mm._map_species_factors_to_k(y, nominal.iloc[::-1], work))
        m.event('refusals of factor vectors', 2)
    if len(sids) > 1:
        m.raises(MorrisInputsError, 'vectors of another order refused',
                 lambda: mm._map_species_factors_to_k(pd.Series(y[::-1], index=sids[::-1]), nominal, work))
    for bad in (list(x), tuple(x), dict(enumerate(x)), .5):
        m.raises(TypeError, 'factors of another type refused', lambda: mm._map_reactions_factors_to_k(bad, nominal))
        m.raises(TypeError, 'nominal values of another type refused',
                 lambda: mm._map_reactions_factors_to_k(x, bad))
    m.raises(AssertionError, 'the chemistry of the method itself is not worked on',
             lambda: mm._map_species_factors_to_k(y, nominal, chem))

    # --- return coefficients
    name = {s: ref.sp[s]['name'] for s in ref.order}
    model = {s: dict(ref.ret(s)) for s in sids}     # of the working copy
    pairs = [(s, t) for s in sids for t in sids]
    rng.shuffle(pairs)
    repeated = {}
    good = [q for q in pairs if q[0] != q[1] and ref.stick(q[0]) > 0]
    for s, t in good:       # something to take from
        if rng.random() < .6 and name[s] not in model[s]:
            v = dict(ref.ret(s), **{name[s]: round(rng.uniform(.3, 2.), 3)})
            work.set_adhoc_species_attributes('ret_coefs', s, dict(v))
            model[s] = v
    todo = pairs[:rng.randint(1, 4)] + (good[:3] * 2 if good else []) + [rng.choice(good) for _ in range(4) if good]
    rng.shuffle(todo)
    for s, t in todo:
        f = rng.choice([0., 1., .5, rng.random(), .05, .95])
        rng_ = rng.choice([1.001, 2, 1.5, rng.uniform(1., 3.) + 1e-9, 2.5])
        nom = rng.choice([model[s].get(name[t], 0.), round(rng.uniform(.01, .2), 3)])
        if rng.random() < .25:
            rng_ = rng.choice([1., .5, 0, -2., 10.])
        if rng.random() < .25:
            nom = rng.choice([rng.random(), 0., -.1])
        elif rng_ > 1 and s != t and rng.random() < .3:      # hardly more, or hardly less, than there is
            have = model[s].get(name[s], 0.) + model[s].get(name[t], 0.)
            nom = max(0., have + rng.choice([1, -1]) * 10 ** rng.uniform(-9, -2)) / rng_ ** (2 * f - 1)
            m.event('marginal return coefficients')
        snap = hist.values(work)
        call = lambda: mm._map_a_factor_to_ret_coef(f, h.ident(s), h.ident(t), nom, work, rng_)
        text = 'x={} {}>{} nominal={} range={}'.format(f, name[s], name[t], nom, rng_)
        m.note(last_mapping=text)
        refuse = rng_ <= 1 or not nom > 0 or s == t or not ref.stick(s) > 0
        if not refuse:
            new = nom * rng_ ** (2 * f - 1)
            own = model[s].get(name[s], 0.) - (new - model[s].get(name[t], 0.))
            if abs(own) < 1e-12:
                continue
            refuse = own < 0
        if refuse:
            m.raises(MorrisInputsError, 'refused mapping of a return coefficient', call)
            m.event('refusals of return coefficients')
            m.check(not hist.diff(snap, hist.values(work)), 'refused mapping changed the chemistry', text)
            continue
        total = math.fsum(model[s].values())
        res = call()
        m.event('return coefficients mapped')
        if (s, t) in repeated:
            m.event('repeated return coefficients')
        repeated[s, t] = 1
        model[s][name[t]] = new
        model[s][name[s]] = own
        got = {n: c for n, c in work.get_species_ret_coefs()[s].items()}
        m.check(set(res) == {name[s]} and set(res[name[s]]) == {name[s], name[t]} and
                all(abs(res[name[s]][n] - got[n]) < 1e-15 for n in res[name[s]]), 'changed coefficients returned', (res, got))
        m.check(set(k for k in got if got[k]) == set(k for k in model[s] if model[s][k]) and
                all(abs(got[k] - model[s][k]) < 1e-11 for k in model[s]), 'new return coefficients',
                lambda: (text, got, model[s]))
        m.check(rel(got[name[t]], new), 'return coefficient mapped from the factor', (text, got, new))
        m.event('self coefficients compensated')
        m.check(abs(math.fsum(got.values()) - total) < 1e-11, 'number of returned particles conserved', (text, got, total))
        mat = work.get_return_matrix()
        for k in sids:
            for l in sids:
                m.check(abs(float(mat.at[l, k]) - model[k].get(name[l], 0.)) < 1e-11, 'other return coefficients',
                        lambda: (text, name[k], name[l], mat.at[l, k]))
        now = hist.values(work)
        changed = [k for k in hist.diff(snap, now)]
        m.check(set(changed) <= {'ret_coefs', 'ret_coefs enabled', 'return'}, 'only return coefficients change', changed)
    special = [s for s in ref.species_ids(special=True) if ref.sp[s]['special']]
    for s in special:
        t = rng.choice(sids)
        for a, b in ((s, t), (t, s)):
            snap = hist.values(work)
            m.raises(MorrisInputsError, 'special species as factors refused',
                     lambda: mm._map_a_factor_to_ret_coef(.5, a, b, 1., work, 2.))
            m.event('refusals of return coefficients')
            m.check(not hist.diff(snap, hist.values(work)), 'refused mapping changed the chemistry')
    m.raises(AssertionError, 'the chemistry of the method itself is not worked on',
             lambda: mm._map_a_factor_to_ret_coef(.5, sids[0], sids[-1], 1., chem, 2.))
    m.check(not hist.diff(before, hist.values(chem)), 'mapping changed the chemistry of the method',
            lambda: hist.diff(before, hist.values(chem)))
    m.sample(gen.describe(spec))
