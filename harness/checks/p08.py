"""Reactions conserve charge and atoms, and their stoichiometry is what they say."""
import itertools

import numpy as np

from harness import gen

RULE = ('random pairs of reactant and product lists over a random species pool, about half of them conserving, the rest '
        'off by an atom, a charge, an electron or an M; each is built as a reaction, and accepted ones have every '
        'stoichiometric view compared; non-trivial: repeated species or a catalyst on both sides')
QUICK, THOROUGH = 800, 9000
MIN_EVENTS = {'conserving reactions': 400, 'violating reactions refused': 400, 'chemistries balanced': 80,
              'strings of hpem names': 100, 'collision partners': 60}


def totals(members):
    atoms, q = {}, 0
    for s in members:
        for el, c in s['atoms'].items():
            atoms[el] = atoms.get(el, 0) + c
        q += s['q'] or 0
    return atoms, q


def views(m, r, lhs, rhs, rps):
    from plaschem.exceptions import ReactionValueError
    ids = [s['id'] for s in lhs + rhs]
    uniq = list(dict.fromkeys(ids))
    m.check([x.id for x in r.get_reactants()] == [s['id'] for s in lhs] and
            [x.id for x in r.get_products()] == [s['id'] for s in rhs], 'reactants or products', str(r))
    net = {i: sum(s['id'] == i for s in rhs) - sum(s['id'] == i for s in lhs) for i in uniq}
    m.check(dict(r.get_stoich_coefs()) == net and dict(r.get_stoich_coefs('net')) == net, 'net stoichiometry',
            lambda: (str(r), dict(r.get_stoich_coefs()), net))
    for method, side in (('lhs', lhs), ('rhs', rhs)):
        exp = {}
        for s in side:
            exp[s['id']] = exp.get(s['id'], 0) + 1
        got = {k: v for k, v in r.get_stoich_coefs(method).items() if v}
        m.check(got == exp, 'one-sided stoichiometry', lambda: (str(r), method, got, exp))
        m.check(list(r.get_rp_ids_set(method)) == list(dict.fromkeys(s['id'] for s in side)), 'ids of a side', str(r))
        m.check(list(r.get_rp_names_set(method)) == list(dict.fromkeys(s['name'] for s in side)), 'names of a side', str(r))
    m.check(list(r.get_rp_ids_set('all')) == uniq, 'ids', str(r))
    m.check(list(r.get_rp_names_set('all')) == list(dict.fromkeys(s['name'] for s in lhs + rhs)), 'names', str(r))
    m.check(str(r) == ' + '.join(s['name'] for s in lhs) + ' > ' + ' + '.join(s['name'] for s in rhs), 'string', str(r))
    m.check(bool(r.is_electron_process()) == any(s['name'] == 'e' for s in lhs), 'electron process', str(r))
    m.check(bool(r.is_ion_process()) == any(s['q'] for s in lhs if not s['special']), 'ion process', str(r))
    m.check(bool(r.get_elastic()) == ({s['name'] for s in lhs} == {s['name'] for s in rhs}), 'elastic', str(r))
    m.check(bool(r.is_elastic_process()) == bool(r.get_elastic()), 'elastic', str(r))
    for s in lhs + rhs:
        m.check(r.get_rp(s['id']) is rps[s['id']] and r.get_rp(s['name']) is rps[s['id']], 'species of a reaction', str(r))
    for unknown in ('Xx2', '', max(uniq) + 1, -1):
        m.raises(ValueError, 'species which is not in the reaction', r.get_rp, unknown)
    # strings of HPEM names, and back
    names = [' + '.join(s['attrs'].get('hpem_name', '') for s in side) for side in (lhs, rhs)]
    if all(s['attrs'].get('hpem_name') for s in lhs + rhs):
        m.check(r.get_hpem_string() == ' > '.join(names) and r.get_hpem_string(backward=True) == ' > '.join(names[::-1]),
                'string of hpem names', lambda: (r.get_hpem_string(), r.get_hpem_string(backward=True), names))
        m.event('strings of hpem names')
    # the heavy particle hit by the electron
    heavy = [s for s in lhs if not s['special']]
    if any(s['name'] == 'e' for s in lhs) and heavy:
        m.check(r.get_electron_collision_partner() is rps[heavy[0]['id']], 'collision partner', str(r))
        m.event('collision partners')
    else:
        m.raises(ReactionValueError, 'collision partner of nothing', r.get_electron_collision_partner)
    # the same key for any order of the participants, another one for other reactions
    from plaschem.reactions import Reaction
    key = Reaction.unique_key(str(r))
    exp_key = (tuple(sorted(s['name'] for s in lhs)), tuple(sorted(s['name'] for s in rhs)))
    m.check((tuple(key[0]), tuple(key[1])) == exp_key, 'unique key', lambda: (str(r), key))


def case(m, rng, i):
    from plaschem.exceptions import ReactionValueError, ReactionInitError
    from plaschem.reactions import Reaction
    spec = gen.gen_spec(rng)
    for k, s in enumerate(spec['species']):
        if rng.random() < .8:
            s['attrs']['hpem_name'] = s['name'].upper().replace('+', '^') + str(k)
    species, _ = gen.build_objects(spec)
    rps = {rp.id: rp for rp in species}
    pool = spec['species']
    groups = {}
    for n in (1, 2, 3):
        for ms in itertools.combinations_with_replacement(range(len(pool)), n):
            atoms, q = totals([pool[k] for k in ms])
            groups.setdefault((tuple(sorted(atoms.items())), q), []).append(ms)
    keys = list(groups)
    interesting = 0
    for k in range(8):
        key = rng.choice(keys)
        lhs = [pool[j] for j in rng.choice(groups[key])]
        if rng.random() < .5:
            rhs = [pool[j] for j in rng.choice(groups[key])]
            if rng.random() < .3:
                x = rng.choice(pool)
                lhs, rhs = (lhs + [x], rhs + [x]) if len(lhs) < 3 else (lhs, rhs)
        else:
            near = rng.random()
            rhs = [pool[j] for j in rng.choice(groups[key])]
            if near < .25:
                rhs = rhs + [rng.choice(pool)]
            elif near < .5:
                rhs[rng.randrange(len(rhs))] = rng.choice(pool)
            elif near < .75 and len(rhs) > 1:
                rhs.pop()
            else:
                rhs = [pool[j] for j in rng.choice(groups[rng.choice(keys)])]
        lhs, rhs = list(lhs), list(rhs)
        rng.shuffle(lhs)
        rng.shuffle(rhs)
        ok = totals(lhs) == totals(rhs)
        unit = {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[len(lhs)]
        what = ' + '.join(s['name'] for s in lhs) + ' > ' + ' + '.join(s['name'] for s in rhs)
        make = lambda: Reaction(k + 1, [rps[s['id']] for s in lhs], [rps[s['id']] for s in rhs], arrh_a=1.,
                                units={'arrh_a': unit})
        m.note(reaction=what)
        if ok:
            r = make()
            m.event('conserving reactions')
            views(m, r, lhs, rhs, rps)
            if len(set(s['id'] for s in lhs)) < len(lhs) or {s['id'] for s in lhs} & {s['id'] for s in rhs}:
                interesting += 1
                m.sample(what)
        else:
            m.raises(ReactionValueError, 'non-conserving reaction accepted', make)
            m.event('violating reactions refused')
    one = [rps[pool[0]['id']]]
    u = {'units': {'arrh_a': 's-1'}, 'arrh_a': 1.}
    m.raises(ReactionInitError, 'reaction without reactants', Reaction, 1, [], one, **u)
    m.raises(ReactionInitError, 'reaction without products', Reaction, 1, one, [], **u)
    m.raises(ReactionInitError, 'reaction of four reactants', Reaction, 1, one * 4, one * 4,
             arrh_a=1., units={'arrh_a': 'm6.s-1'})
    for bad in (0, -3, 1.5, '1', None):
        m.raises(ReactionInitError, 'reaction id accepted', Reaction, bad, one, one, **u)
    # the whole network: stoichiometric matrix times what is conserved vanishes
    chem = gen.build(spec)
    S = chem.get_stoichiomatrix(special=True, method='net')
    els = sorted({el for s in pool for el in s['atoms']})
    by = {s['id']: s for s in pool}
    C = np.array([[by[j]['atoms'].get(el, 0) for el in els] + [by[j]['q'] or 0] for j in S.columns])
    m.check(not (S.values @ C).any(), 'stoichiometric matrix does not conserve', lambda: S)
    diff_ = chem.get_stoichiomatrix(special=True, method='rhs').values - chem.get_stoichiomatrix(special=True, method='lhs').values
    m.check((diff_ == S.values).all(), 'net is not right minus left', lambda: S)
    m.event('chemistries balanced')
    if interesting:
        m.signature(gen.describe(spec), i)
