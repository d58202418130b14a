"""The model does not depend on how the chemistry is written down."""
import copy

from harness import gen, hist, odes

RULE = ('random chemistry, then the same one with shuffled species and reactions, other ids, other units and number '
        'types; and a chemistry reduced by a random history against one built from what is left: all model quantities '
        'agree species by species and reaction by reaction; non-trivial: at least 4 reactions and a changed order')
QUICK, THOROUGH = 500, 5000
MIN_EVENTS = {'rewritten chemistries compared': 104, 'reduced chemistries compared with rebuilt ones': 12,
              'quantities compared': 2284}


def rewrite(rng, spec):
    new = copy.deepcopy(spec)
    ids = rng.sample(range(0, 500), len(spec['species']))
    rids = rng.sample(range(1, 900), len(spec['reactions']))
    mp = {s['id']: k for s, k in zip(spec['species'], ids)}
    rmp = {r['id']: k for r, k in zip(spec['reactions'], rids)}
    for s in new['species']:
        s['id'] = mp[s['id']]
    for r in new['reactions']:
        r['id'] = rmp[r['id']]
        r['lhs'] = [mp[k] for k in r['lhs']]
        r['rhs'] = [mp[k] for k in r['rhs']]
        rng.shuffle(r['lhs'])
        rng.shuffle(r['rhs'])
        unit = r['units']['arrh_a']
        if rng.random() < .5 and unit != 's-1':
            other = unit.replace('cm', 'm') if unit.startswith('cm') else 'c' + unit
            fac = {'cm3.s-1': 1e-6, 'm3.s-1': 1., 'cm6.s-1': 1e-12, 'm6.s-1': 1.}
            r['a'] = r['a'] * fac[unit] / fac[other]
            r['attrs']['arrh_a'] = gen.num(rng, r['a'])
            r['units']['arrh_a'] = r['unit'] = other
            r['factor'] = fac[other]
    rng.shuffle(new['species'])
    rng.shuffle(new['reactions'])
    return new, mp, rmp


def rebuilt(ref):
    spec = {'species': [], 'reactions': []}
    for s in ref.spec['species']:
        if s['id'] not in ref.en_sp:
            continue
        s = copy.deepcopy(s)
        if s['form']:
            s['attrs']['stick_coef'] = s['stick_coef'] = ref.stick(s['id'])
            s['attrs']['ret_coefs'] = s['ret_coefs'] = dict(ref.ret(s['id']))
        spec['species'].append(s)
    for r in ref.spec['reactions']:
        if r['id'] in ref.en_r:
            r = copy.deepcopy(r)
            r['a'] = r['attrs']['arrh_a'] = ref.arrh_a(r['id'], si=False)
            spec['reactions'].append(r)
    return spec


SPECIES = ['volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths', 'diffusivities',
           'wall_fluxes', 'diffusion_source_rates', 'dn_dt']
REACTIONS = ['reaction_rate_coefficients', 'reaction_rates']
SCALARS = ['total_density', 'total_pressure', 'electron_density', 'electron_temperature', 'drho_dt_el_inel',
           'drho_dt_gain_loss', 'drho_dt_el_walls', 'sheath_voltage', 'drho_dt_ions_walls']


def compare(m, what, eq, eq2, ids, ids2, rids, rids2, y, y2, t, scale):
    """ids2[k] is what ids[k] is called in the second chemistry."""
    pos2 = {s: k for k, s in enumerate(ids2[1])}
    rpos2 = {s: k for k, s in enumerate(rids2[1])}
    perm = [pos2[ids2[0][s]] for s in ids]
    rperm = [rpos2[rids2[0][s]] for s in rids]
    for nm in SPECIES + REACTIONS + SCALARS:
        a, b = getattr(eq, 'get_' + nm)(y), getattr(eq2, 'get_' + nm)(y2)
        if nm in SPECIES:
            a, b = list(a), [b[k] for k in perm]
        elif nm in REACTIONS:
            a, b = list(a), [b[k] for k in rperm]
        m.event('quantities compared')
        m.check(odes.close(a, b, scale.get(nm)), what + ' ' + nm, lambda: (a, b))
    a = eq.get_objective_functions()[0](t, y)
    b = eq2.get_objective_functions()[0](t, y2)
    b = [b[k] for k in perm] + [b[-1]]
    sc = scale['dn_dt'] + [sum(scale[k] for k in ('drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls',
                                                  'drho_dt_ions_walls'))]
    m.check(odes.close(list(a), b, sc), what + ' right-hand side', lambda: (list(a), b))


def case(m, rng, i):
    from pygmo_fwork.pygmol.equations import Equations
    spec = odes.gen_model_spec(rng)
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    p = odes.gen_params(rng, spec)
    ref = gen.Ref(spec)
    spec2, mp, rmp = rewrite(rng, spec)
    m.note(rewritten=gen.describe(spec2), params=p)
    ref2 = gen.Ref(spec2)
    chem2 = gen.build(spec2)
    eq, eq2 = Equations(chem, odes.passed(rng, p)), Equations(chem2, odes.passed(rng, p))
    for _ in range(2):
        y = odes.gen_state(rng, ref, p)
        t = rng.uniform(0, p['t_end'])
        ids, ids2 = ref.species_ids(), ref2.species_ids()
        val = dict(zip(ids, y))
        inv = {v: k for k, v in mp.items()}
        y2 = type(y)(0) if False else y.copy()
        y2[:-1] = [val[inv[s]] for s in ids2]
        scale = odes.reference(ref, p, y, t)[1]
        m.event('rewritten chemistries compared')
        compare(m, 'order, ids or units matter:', eq, eq2, ids, (mp, ids2), ref.reaction_ids(),
                (rmp, ref2.reaction_ids()), y, y2, t, scale)
    # disabled is as if it had never been there
    h = hist.History(m, rng, spec, chem)
    h.random_state(rng.randint(1, 6))
    ref = h.ref
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        return
    spec3 = rebuilt(ref)
    ref3 = gen.Ref(spec3)
    p = odes.gen_params(rng, spec, ref=ref)
    chem3 = gen.build(spec3)
    eq, eq3 = Equations(chem, p), Equations(chem3, p)
    y = odes.gen_state(rng, ref, p)
    t = rng.uniform(0, p['t_end'])
    ident = {s: s for s in ref.order}
    rident = {s: s for s in ref.rorder}
    if len(spec3['species']) < len(spec['species']) or len(spec3['reactions']) < len(spec['reactions']):
        m.event('reduced chemistries compared with rebuilt ones')
    compare(m, 'reduced chemistry differs from a rebuilt one:', eq, eq3, ref.species_ids(), (ident, ref3.species_ids()),
            ref.reaction_ids(), (rident, ref3.reaction_ids()), y, y.copy(), t, odes.reference(ref, p, y, t)[1])
    if len(spec['reactions']) >= 4:
        m.signature(gen.describe(spec), gen.describe(spec2), sorted(ref.en_r))
        m.sample({'chemistry': gen.describe(spec), 'rewritten': gen.describe(spec2)})
