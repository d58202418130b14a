"""Copies and returned values are isolated: changing one never changes another."""
import numpy as np
import pandas as pd

from harness import gen, hist

RULE = ('random chemistry in a random state is copied; both go through independent histories, and everything the '
        'getters return is overwritten in place; non-trivial: both sides diverge')
QUICK, THOROUGH = 300, 3500
MIN_EVENTS = {'copies': 50, 'returned values overwritten': 4000, 'caller-owned values overwritten': 50}


def snap(chem):
    d = hist.visible(chem)
    d.update(hist.values(chem))
    return d


def vandalise(m, x):
    """Overwrite a returned container in place, as careless user code might."""
    try:
        if isinstance(x, pd.Series):
            for i in list(x.index)[:50]:
                if isinstance(x.at[i], dict):
                    x.at[i]['nonsense'] = 77.
                    x.at[i].pop(next(iter(x.at[i])))
            if len(x):
                x.iloc[:] = None
        elif isinstance(x, pd.DataFrame):
            x.iloc[:, :] = -99
        elif isinstance(x, np.ndarray):
            x[...] = 0 if x.dtype != bool else ~x
        elif isinstance(x, dict):
            x.clear()
        elif isinstance(x, list):
            del x[:]
        else:
            return
    except (TypeError, ValueError):
        pass
    m.event('returned values overwritten')


GETTERS = ['get_species', 'get_species_name', 'get_species_charge', 'get_species_mass', 'get_species_h_form',
           'get_species_lj_epsilon', 'get_species_lj_sigma', 'get_species_stick_coef', 'get_species_ret_coefs',
           'get_species_id', 'get_protected_species', 'get_special_species', 'get_disabled_species',
           'get_disabled_reactions', 'get_reactions', 'get_reactions_arrh_a', 'get_reactions_arrh_b',
           'get_reactions_arrh_c', 'get_reactions_el_en_loss', 'get_reactions_ges_heat_contrib',
           'get_reactions_elastic', 'get_reactions_id', 'get_return_matrix', 'get_stoichiomatrix',
           'get_reactions_stoich_coefs_electron', 'get_reactions_stoich_coefs_arbitrary']


def case(m, rng, i):
    spec = gen.gen_spec(rng)
    m.note(chemistry=gen.describe(spec))
    h = hist.History(m, rng, spec, gen.build(spec))
    h.random_state(steps=rng.randint(0, 6))
    before = snap(h.chem)
    c = h.chem.copy()
    m.event('copies')
    m.check(type(c) is type(h.chem), 'copy of another class')
    m.check(not hist.diff(before, snap(c)), 'copy differs', lambda: hist.diff(before, snap(c)))
    m.check(not hist.diff(before, snap(h.chem)), 'copying changed the original')
    a, b = m.tmp + '/a.yaml', m.tmp + '/b.yaml'
    h.chem.dump_chemistry_attributes(a)
    c.dump_chemistry_attributes(b)
    m.check(open(a).read() == open(b).read() and c.check_coherence(a), 'copy is not coherent with the original')
    h2 = hist.History(m, rng, spec, c, h.ref.clone())
    # independent histories: each has to follow its own reference
    sides = [h, h2]
    frozen = {id(h): before, id(h2): snap(c)}
    for _ in range(rng.randint(2, 7)):
        k = rng.randrange(2)
        mover, other = sides[k], sides[1 - k]
        res = mover.step(rng.choice(['disable', 'disable', 'protect', 'reset', 'adhoc', 'adhoc']))
        if res:
            m.check(res[0] == res[1], 'copy behaves differently', mover.log)
        d = hist.diff(frozen[id(other)], snap(other.chem))
        m.check(not d, 'a change of one chemistry changed its copy', lambda: '{}: {}'.format(mover.log[-1], d))
        d = hist.diff(hist.expected_visible(mover.ref), hist.visible(mover.chem))
        m.check(not d, 'copy behaves differently', lambda: '{}: {}'.format(mover.log, d))
        frozen[id(mover)] = snap(mover.chem)
    for side in sides:
        want = snap(side.chem)
        for g in GETTERS:
            vandalise(m, getattr(side.chem, g)())
            if g in ('get_species', 'get_reactions', 'get_species_ret_coefs'):
                vandalise(m, getattr(side.chem, g)(disabled=True))
        vandalise(m, side.chem.get_species_mask(disabled=True, special=True, protected=True))
        vandalise(m, side.chem.get_species_mask(disabled=False, special=True, protected=True))
        vandalise(m, side.chem.get_reactions_mask(disabled=False))
        vandalise(m, side.chem.get_reactions_mask(disabled=True))
        for rp in side.chem.get_species(disabled=True, special=True):
            for v in (rp.get_ret_coefs(), rp.get_atoms()):
                vandalise(m, v)
        for r in side.chem.get_reactions(disabled=True):
            vandalise(m, r.get_stoich_coefs('net'))
        d = hist.diff(want, snap(side.chem))
        m.check(not d, 'overwriting a returned value changed the chemistry', lambda: d)
    # values handed in by the caller
    ref, chem = h.ref, h.chem
    heavy = rng.choice([j for j in ref.order if not ref.sp[j]['special']])
    live = [ref.sp[j]['name'] for j in ref.order if not ref.sp[j]['special'] and j in ref.en_sp]
    mine = {rng.choice(live): .25}
    chem.set_adhoc_species_attributes('ret_coefs', heavy, mine)
    want = snap(chem)
    mine.clear()
    mine['nonsense'] = 4.
    m.event('caller-owned values overwritten')
    d = hist.diff(want, snap(chem))
    m.check(not d, 'the chemistry kept a reference to the caller\'s dictionary', lambda: d)
    c2 = chem.copy()
    want = snap(chem)
    for values in c2.adhoc_species_attributes['ret_coefs']:
        for name in values:
            values[name] = 7.
    m.check(not hist.diff(want, snap(chem)), 'a change of one chemistry changed its copy', 'ad-hoc values')
    c2.set_adhoc_species_attributes('ret_coefs', heavy, {})
    c2.reset_adhoc_species_attributes('all')
    c2.reset_adhoc_reactions_attributes('all')
    m.check(not hist.diff(want, snap(chem)), 'a change of one chemistry changed its copy', 'ad-hoc reset')
    if hist.expected_visible(h.ref) != hist.expected_visible(h2.ref):
        m.signature(gen.describe(spec), h.log, h2.log)
        m.sample({'chemistry': gen.describe(spec), 'original': h.log, 'copy': h2.log})
