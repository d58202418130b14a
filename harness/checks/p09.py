"""Species and reaction attributes: documented values, defaults, units; anything else is refused without effect."""
import math

import numpy as np

from harness import gen, hist

RULE = ('random species and reactions from every accepted value type, with and without units; each is then given one '
        'illegal thing at a time (id, type, value, unit, name, missing or unknown attribute), at construction and '
        'through the setter, and evaluated at random temperatures; non-trivial: every case')
QUICK, THOROUGH = 900, 9000
MIN_EVENTS = {'refused constructions': 3000, 'refused changes': 1500, 'rate coefficients': 1512, 'defaults': 1500,
              'accepted changes': 500, 'ions of many charges': 500}


def rate(spec_r, T, si):
    a = spec_r['a'] * (spec_r['factor'] if si else 1.)
    x = T if spec_r['electron'] else T / 300.
    return a * x ** spec_r['b'] * math.exp(-spec_r['c'] / T)


def species_view(rp):
    out = [rp.id]
    for g in ('name', 'stateless', 'state', 'mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma', 'hpem_name', 'qdb_id',
              'stick_coef', 'ret_coefs', 'comments'):
        out.append((g, hist.plain(getattr(rp, 'get_' + g)())))
    for u in ('mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma'):
        out.append((u, rp.get_unit(u)))
    return out


def do_charges(m, rng):
    """Ions of any charge, in any of the notations."""
    from plaschem.species import RP
    form = rng.choice(sorted(gen.FORMULAE))
    q = rng.choice([1, 2, 3, 4, 9, 10, 11, 12, 18, 26, 30]) * rng.choice([1, -1])
    sign = '+' if q > 0 else '-'
    for suffix in [sign * abs(q), sign + str(abs(q))]:
        rp = RP(rng.randint(0, 99), attributes={'name': form + suffix, 'charge': q, 'mass': 1.})
        m.event('ions of many charges')
        m.check(rp.get_charge() == q and rp.get_ret_coefs() == {form: 1.} and rp.get_stick_coef() == 1.,
                'ion of many charges', lambda: (rp.get_name(), rp.get_charge(), rp.get_ret_coefs(), rp.get_stick_coef()))
        m.check(RP.strip_charge(form + suffix) == form, 'name without the charge', lambda: (form + suffix, RP.strip_charge(form + suffix)))
        m.check(rp.get_atoms() == gen.FORMULAE[form], 'atoms of an ion of many charges', lambda: (rp.get_name(), rp.get_atoms()))


def reaction_view(r):
    out = [r.id, str(r), hist.plain(r.get_arrh_a()), hist.plain(r.get_arrh_a(si_units=False))]
    for g in ('arrh_b', 'arrh_c', 'el_en_loss', 'gas_heat_contrib', 'special_number', 'qdb_r_id', 'qdb_ds_id', 'doi',
              'comments', 'elastic'):
        out.append((g, hist.plain(getattr(r, 'get_' + g)())))
    for u in ('arrh_a', 'arrh_c', 'el_en_loss', 'gas_heat_contrib'):
        out.append((u, r.get_unit(u)))
    return out


def do_species(m, rng, s):
    from plaschem.exceptions import RPAttributeError, RPInitError
    from plaschem.species import RP
    at, un = s['attrs'], s['units']
    rp = RP(s['id'], attributes=dict(at), units=dict(un))
    special = s['special']
    exp = {'name': s['name'], 'mass': s['mass'], 'charge': s['q'], 'h_form': s['h_form'],
           'lj_epsilon': s['lj_epsilon'], 'lj_sigma': s['lj_sigma'], 'stick_coef': s['stick_coef'],
           'ret_coefs': s['ret_coefs']}
    for k, v in exp.items():
        got = getattr(rp, 'get_' + k)()
        m.check(hist.same(v, got), 'species value ' + k, lambda: '{}: expected {!r} observed {!r}'.format(s['name'], v, got))
        if k not in at:
            m.event('defaults')
    for k, t in (('mass', float), ('h_form', float), ('lj_epsilon', float), ('lj_sigma', float), ('charge', int),
                 ('stick_coef', float)):
        v = getattr(rp, 'get_' + k)()
        m.check(v is None or isinstance(v, t), 'species value of another type ' + k, type(v))
    for k, d in (('mass', 'amu'), ('charge', 'e'), ('h_form', 'eV'), ('lj_epsilon', 'K'), ('lj_sigma', 'A')):
        m.check(rp.get_unit(k) == d, 'species unit ' + k, rp.get_unit(k))
    m.raises(RPAttributeError, 'unit of an attribute without units', rp.get_unit, 'name')
    m.check(rp.is_special() == special, 'special species', s['name'])
    m.check(rp.is_stateless() == (special or not s['excited']), 'stateless species', s['name'])
    m.check(rp.get_atoms() == s['atoms'], 'atoms of a species', lambda: (s['name'], rp.get_atoms()))
    m.check(str(rp) == s['name'], 'string of a species')
    # keyword attributes amend and override the dictionary
    if s['mass'] is not None:
        rp2 = RP(s['id'], attributes=dict(at, mass=999.), units=dict(un), mass=s['mass'])
        m.check(species_view(rp2) == species_view(rp), 'keyword attribute does not override', s['name'])
    # constructions to be refused
    bad = [dict(rp_id=b) for b in (-1, 1.0, '1', None, np.int64(3))]
    for b in bad:
        m.raises(RPInitError, 'species id accepted', RP, b['rp_id'], attributes=dict(at), units=dict(un))
    no_name = {k: v for k, v in at.items() if k != 'name'}
    cases = [(no_name, un), (dict(at, nonsense=1), un), (dict(at, name=s['name'] + '<'), un),
             (dict(at, name='>' + s['name']), un), (dict(at, lj_sigma=[1.]), un), (dict(at, charge=1.5), un),
             (dict(at, ret_coefs='O'), un), (dict(at, stick_coef={}), un), (dict(at, hpem_name=7), un),
             (dict(at, mass=1.), dict(un, mass='kg')), (dict(at, h_form=1.), dict(un, h_form='J')),
             (dict(at, lj_sigma=1.), dict(un, lj_sigma='nm')), (at, dict(un, name='x')), (at, dict(un, nonsense='eV'))]
    if s['name'] != 'M':
        cases.append(({k: v for k, v in at.items() if k != 'mass'}, {k: v for k, v in un.items() if k != 'mass'}))
    if not special:
        cases.append((dict({k: v for k, v in at.items() if k != 'stateless'}, state='1D'), un))
    if 'h_form' not in at:
        cases.append((at, dict(un, h_form='eV')))
    for a, u in cases:
        m.raises(RPAttributeError, 'illegal species accepted', RP, s['id'], attributes=dict(a), units=dict(u))
        m.event('refused constructions')
    # changes
    for k, v, u in rng.sample([('mass', [1.], None), ('mass', 2., 'kg'), ('charge', 2.5, None), ('nonsense', 1, None),
                               ('lj_sigma', 2., 'm'), ('ret_coefs', 'O', None), ('stick_coef', (1.,), None),
                               ('name', 'X', 'eV'), ('comments', 5, None)], 4):
        before = species_view(rp)
        m.raises(RPAttributeError, 'illegal change of a species accepted', rp.set_species_attribute, k, v, unit=u)
        m.check(species_view(rp) == before, 'refused change of a species had an effect', (k, v))
        m.event('refused changes')
    if not special:
        k = rng.choice(['mass', 'h_form', 'lj_epsilon', 'lj_sigma', 'stick_coef'])
        v = round(rng.uniform(.1, 1.), 4)
        before = dict(x for x in species_view(rp)[1:14])
        rp.set_species_attribute(k, gen.num(rng, v), unit=rng.choice([None, {'mass': 'amu', 'h_form': 'eV', 'lj_epsilon': 'K', 'lj_sigma': 'A'}.get(k)]))
        after = dict(x for x in species_view(rp)[1:14])
        m.check(hist.same(v, getattr(rp, 'get_' + k)()), 'change of a species lost', (k, v))
        m.check({x: after[x] for x in after if x != k} == {x: before[x] for x in before if x != k},
                'change of a species changed something else', (k, before, after))
        m.event('accepted changes')


def do_reaction(m, rng, r, rps):
    from plaschem.exceptions import ReactionAttributeError
    from plaschem.reactions import Reaction
    lhs, rhs = [rps[i] for i in r['lhs']], [rps[i] for i in r['rhs']]
    at, un = r['attrs'], r['units']
    real = Reaction(r['id'], lhs, rhs, attributes=dict(at), units=dict(un))
    for g, v in (('arrh_b', r['b']), ('arrh_c', r['c']), ('el_en_loss', r['el_en_loss']),
                 ('gas_heat_contrib', r['gas_heat_contrib']), ('special_number', r['special_number']),
                 ('elastic', r['elastic'])):
        got = getattr(real, 'get_' + g)()
        m.check(hist.same(v, got), 'reaction value ' + g, lambda: 'R{}: expected {!r} observed {!r} from {!r}'.format(r['id'], v, got, at.get(g)))
        if g not in at:
            m.event('defaults')
    m.check(isinstance(real.get_elastic(), bool), 'elastic is not a bool')
    m.check(hist.same(r['a'], real.get_arrh_a(si_units=False)), 'nominal arrh_a', r)
    m.check(hist.same(r['a'] * r['factor'], real.get_arrh_a()), 'SI arrh_a', lambda: (r['a'], r['unit'], real.get_arrh_a()))
    m.check(real.get_unit('arrh_a') == r['unit'] and real.get_unit('el_en_loss') == 'eV' and
            real.get_unit('gas_heat_contrib') == 'eV' and real.get_unit('arrh_c') == un.get('arrh_c'), 'reaction unit', r)
    m.raises(ReactionAttributeError, 'unit of an attribute without units', real.get_unit, 'elastic')
    for _ in range(4):
        T = rng.choice([rng.uniform(.3, 30), 10 ** rng.uniform(-1, 2)]) if r['electron'] else rng.uniform(200, 5000)
        for si in (True, False):
            got, exp = real.get_rate_coefficient(T, si_units=si), rate(r, T, si)
            m.check(math.isclose(got, exp, rel_tol=1e-9, abs_tol=1e-300), 'rate coefficient',
                    lambda: 'R{} at {}: expected {} observed {}'.format(r['id'], T, exp, got))
            m.event('rate coefficients')
    n = len(lhs)
    wrong_units = [u for u in ('s-1', 'cm3.s-1', 'm3.s-1', 'cm6.s-1', 'm6.s-1')
                   if u not in {1: ('s-1',), 2: ('cm3.s-1', 'm3.s-1'), 3: ('cm6.s-1', 'm6.s-1')}[n]]
    c_unit, c_wrong = ('eV', 'K') if r['electron'] else ('K', 'eV')
    cases = [(at, dict(un, arrh_a=rng.choice(wrong_units))), (at, dict(un, arrh_a='kg')),
             (at, {k: v for k, v in un.items() if k != 'arrh_a'}),
             (dict(at, arrh_a=-1e-3), un), (dict(at, arrh_a='-2'), un), (dict(at, arrh_a=[1.]), un),
             (dict(at, arrh_c=1.), dict(un, arrh_c=c_wrong)), (dict(at, arrh_c=1.), {k: v for k, v in un.items() if k != 'arrh_c'}),
             (dict(at, nonsense=1.), un), (dict(at, el_en_loss=1.), dict(un, el_en_loss='J')),
             (dict(at, gas_heat_contrib=1.), dict(un, gas_heat_contrib='K')),
             (dict(at, elastic='maybe'), un), (dict(at, elastic='yes'), un), (dict(at, special_number=1.5), un),
             (dict(at, comments=5), un), (at, dict(un, elastic='eV'))]
    if 'special_number' not in at:
        cases.append(({k: v for k, v in at.items() if k != 'arrh_a'}, {k: v for k, v in un.items() if k != 'arrh_a'}))
    if 'el_en_loss' not in at:
        cases.append((at, dict(un, el_en_loss='eV')))
    for a, u in cases:
        m.raises(ReactionAttributeError, 'illegal reaction accepted', Reaction, r['id'], lhs, rhs, attributes=dict(a), units=dict(u))
        m.event('refused constructions')
    # a reaction which has only a special number has no rate
    x = Reaction(r['id'], lhs, rhs, attributes={'special_number': '-5'})
    m.check(x.get_arrh_a() is None and x.get_arrh_b() is None and x.get_arrh_c() is None and x.get_special_number() == -5,
            'reaction without Arrhenius data')
    from plaschem.exceptions import ReactionValueError
    m.raises(ReactionValueError, 'rate coefficient without data', x.get_rate_coefficient, 1.)
    legal = {1: ['s-1'], 2: ['cm3.s-1', 'm3.s-1'], 3: ['cm6.s-1', 'm6.s-1']}[n]
    factor = {'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}
    for k, v, u in rng.sample([('arrh_a', 1., wrong_units[0]), ('arrh_a', -1., r['unit']), ('arrh_a', 1., None),
                               ('arrh_a', rng.choice([-1., '-3e-5', [1.], {}]), legal[0]), ('arrh_a', -2, legal[-1]),
                               ('arrh_c', [1.], c_unit), ('el_en_loss', {}, 'eV'), ('gas_heat_contrib', [1.], 'eV'),
                               ('doi', 3., None), ('qdb_r_id', 1.5, None), ('special_number', [2], None),
                               ('arrh_c', 1., c_wrong), ('arrh_c', 1., None), ('elastic', 'no', None),
                               ('nonsense', 1, None), ('el_en_loss', 1., 'K'), ('arrh_b', [1], None)], 8):
        before = reaction_view(real)
        m.raises(ReactionAttributeError, 'illegal change of a reaction accepted', real.set_reaction_attribute, k, v, unit=u)
        m.check(reaction_view(real) == before, 'refused change of a reaction had an effect', (k, v))
        m.event('refused changes')
    for _ in range(2):
        v, u = float('{:.3e}'.format(10 ** rng.uniform(-20, 3))), rng.choice(legal)
        before = reaction_view(real)
        real.set_reaction_attribute('arrh_a', gen.num(rng, v), unit=u)
        m.check(hist.same(v * factor.get(u, 1.), real.get_arrh_a()) and hist.same(v, real.get_arrh_a(si_units=False)) and
                real.get_unit('arrh_a') == u, 'change of a reaction lost', lambda: (v, u, real.get_arrh_a()))
        m.check([x for x in reaction_view(real)[4:] if x[0] != 'arrh_a'] == [x for x in before[4:] if x[0] != 'arrh_a'],
                'change of a reaction changed something else', 'arrh_a')
        now = dict(r, a=v, factor=factor.get(u, 1.), b=real.get_arrh_b(), c=real.get_arrh_c())
        k = rng.choice(['arrh_b', 'arrh_c', 'el_en_loss', 'gas_heat_contrib'])
        w = round(rng.uniform(-2, 2), 3) if k != 'arrh_c' else round(rng.uniform(0, 5), 3)
        before = dict(x for x in reaction_view(real)[4:] if x[0] != k)
        real.set_reaction_attribute(k, gen.num(rng, w), unit={'arrh_b': None, 'arrh_c': c_unit}.get(k, 'eV'))
        m.check(hist.same(w, getattr(real, 'get_' + k)()), 'change of a reaction lost', (k, w))
        m.check(dict(x for x in reaction_view(real)[4:] if x[0] != k) == before,
                'change of a reaction changed something else', k)
        now.update({'arrh_b': {'b': w}, 'arrh_c': {'c': w}}.get(k, {}))
        T = rng.uniform(.3, 30) if r['electron'] else rng.uniform(200, 5000)
        for si in (True, False):
            m.check(math.isclose(real.get_rate_coefficient(T, si_units=si), rate(now, T, si), rel_tol=1e-9, abs_tol=1e-300),
                    'rate coefficient of a changed reaction', lambda: (k, w, v, u, T))
        m.event('accepted changes', 2)
    v = rng.choice([True, False])
    real.set_reaction_attribute('elastic', rng.choice([v, str(v), str(v).upper(), str(v).lower()]))
    m.check(real.get_elastic() is v, 'change of a reaction lost', v)
    m.event('accepted changes', 2)


def case(m, rng, i):
    spec = gen.gen_spec(rng)
    m.note(chemistry=gen.describe(spec))
    species, _ = gen.build_objects(spec)
    rps = {rp.id: rp for rp in species}
    for s in rng.sample(spec['species'], min(4, len(spec['species']))):
        do_species(m, rng, s)
    for r in rng.sample(spec['reactions'], min(4, len(spec['reactions']))):
        do_reaction(m, rng, r, rps)
    do_charges(m, rng)
    m.signature(spec)
    m.sample({k: spec['reactions'][0][k] for k in ('attrs', 'units', 'lhs', 'rhs')})
