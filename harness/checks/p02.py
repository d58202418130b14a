"""A refused change leaves the chemistry as it was; what is protected is never lost."""
import numpy as np

from harness import gen, hist

RULE = ('random chemistry driven into a random state, then calls which have to be refused (protected species, last '
        'positive ion, cascade into either, unknown identifiers, unsupported ad-hoc attributes, types, return species, '
        'broken files) between accepted ones; non-trivial: a refused call whose cascade would have reached other '
        'species or reactions first')
QUICK, THOROUGH = 400, 6000
MIN_EVENTS = {'refused disable': 150, 'refused deep cascade': 30, 'refused other': 300}


def snap(chem):
    d = hist.visible(chem)
    d.update(hist.values(chem))
    return d


def case(m, rng, i):
    from plaschem import exceptions as ex
    spec = gen.gen_spec(rng)
    m.note(chemistry=gen.describe(spec))
    h = hist.History(m, rng, spec, gen.build(spec))
    h.random_state()
    chem, ref = h.chem, h.ref
    deep = 0
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(['disable'] * 5 + ['unknown', 'adhoc', 'load', 'protect', 'accepted'])
        before = snap(chem)
        refused = True
        if op == 'disable':
            was = ref.clone()
            targeted = rng.random()
            sp, rs = None, None
            if targeted < .3 and ref.all_protected() & ref.en_sp:    # every reaction of a protected species
                p = rng.choice(sorted(ref.all_protected() & ref.en_sp))
                rs = [r for r in ref.reaction_ids() if p in ref.r[r]['lhs'] + ref.r[r]['rhs']]
                sp = []
            elif targeted < .5:
                sp, rs = sorted(ref.pos_ions()), []
                rng.shuffle(sp)
            ok, got = h.do_disable(sp, rs)
            refused = not got
            m.check(ok == got, 'protected or last ion lost' if got else 'refused wrongly', h.log[-1])
            if refused:
                m.event('refused disable')
                ds, dr = was.closure([], [])
                ds2, dr2 = was.closure(sp or [], rs or [])
                if len(ds2) + len(dr2) > len(ds) + len(dr) + len(sp or []) + len(rs or []):
                    deep += 1
                    m.event('refused deep cascade')
        elif op == 'unknown':
            heavy = h.ident(rng.choice(ref.order))
            h.log.append('unknown identifiers')
            m.raises(ex.ChemistrySpeciesNotPresentError, 'unknown species accepted by disable',
                     chem.disable, species=(heavy, rng.choice([777, 'Zz', np.int64(555)])))
            m.raises(ex.ChemistryReactionNotPresentError, 'unknown reaction accepted by disable',
                     chem.disable, species=(heavy,), reactions=(ref.rorder[0], 7777))
            m.raises(ex.ChemistrySpeciesNotPresentError, 'unknown species accepted by set_protected_species',
                     chem.set_protected_species, rng.choice([777, 'Zz']))
            m.raises(ex.ChemistrySpeciesNotPresentError, 'unknown species accepted by get_rp', chem.get_rp, 'Zz')
            m.raises(ex.ChemistryReactionNotPresentError, 'unknown reaction accepted by get_reaction',
                     chem.get_reaction, 7777)
            m.event('refused other', 5)
        elif op == 'adhoc':
            h.log.append('unsupported ad-hoc')
            heavy = rng.choice([j for j in ref.order if not ref.sp[j]['special']])
            r = rng.choice(ref.rorder)
            m.raises(ex.RPAttributeError, 'ad-hoc change of unsupported attribute accepted',
                     chem.set_adhoc_species_attributes, rng.choice(['mass', 'charge', 'nonsense']), heavy, 1.)
            m.raises(ex.ReactionAttributeError, 'ad-hoc change of unsupported attribute accepted',
                     chem.set_adhoc_reactions_attributes, rng.choice(['arrh_b', 'elastic', 'nonsense']), r, 1.)
            m.raises(ex.RPAttributeError, 'ad-hoc value of unsupported type accepted',
                     chem.set_adhoc_species_attributes, 'stick_coef', heavy, rng.choice([[1.], {}, (1,), True]))
            m.raises(ex.RPAttributeError, 'ad-hoc value of unsupported type accepted',
                     chem.set_adhoc_species_attributes, 'ret_coefs', heavy, rng.choice([1., 'H', [('H', 1.)]]))
            m.raises(ex.ReactionAttributeError, 'ad-hoc value of unsupported type accepted',
                     chem.set_adhoc_reactions_attributes, 'arrh_a', r, rng.choice([[1.], {}, (1,), True]))
            m.raises(ex.ChemistryConsistencyError, 'unknown return species accepted',
                     chem.set_adhoc_species_attributes, 'ret_coefs', heavy,
                     {ref.sp[heavy]['name']: .5, 'Zz': .5})
            off = [ref.sp[j]['name'] for j in ref.order if j not in ref.en_sp]
            if off:
                m.raises(ex.ChemistryConsistencyError, 'disabled return species accepted',
                         chem.set_adhoc_species_attributes, 'ret_coefs', heavy, {rng.choice(off): .5})
            m.raises(ex.ChemistrySpeciesNotPresentError, 'ad-hoc change of unknown species accepted',
                     chem.set_adhoc_species_attributes, 'stick_coef', rng.choice([777, 'Zz']), .5)
            m.raises(ex.ChemistryReactionNotPresentError, 'ad-hoc change of unknown reaction accepted',
                     chem.set_adhoc_reactions_attributes, 'arrh_a', 7777, .5)
            m.raises(ex.RPAttributeError, 'reset of unsupported attribute accepted',
                     chem.reset_adhoc_species_attributes, 'mass')
            m.raises(ex.ReactionAttributeError, 'reset of unsupported attribute accepted',
                     chem.reset_adhoc_reactions_attributes, 'arrh_b')
            m.event('refused other', 9)
        elif op == 'load':
            h.log.append('broken file')
            path = m.tmp + '/a.yaml'
            m.raises(ex.ChemistryAttributeError, 'missing file loaded', chem.load_chemistry_attributes, path)
            other = gen.build(spec)
            other.dump_chemistry_attributes(path)
            import yaml
            data = yaml.safe_load(open(path))
            data.pop(rng.choice(sorted(data)))
            yaml.dump(data, open(path, 'w'))
            m.raises(ex.ChemistryAttributeError, 'incomplete file loaded', chem.load_chemistry_attributes, path)
            m.event('refused other', 2)
        elif op == 'protect':
            h.do_protect()
            refused = False
        else:
            h.do_disable()
            refused = False
        if refused:
            d = hist.diff(before, snap(chem))
            m.check(not d, 'refused call changed the chemistry', lambda: '{}: {}'.format(h.log[-1], d))
        d = hist.diff(hist.expected_visible(ref), hist.visible(chem))
        m.check(not d, 'state is not the expected one', lambda: '{}: {}'.format(h.log[-1], d))
        left = set(chem.get_species(special=True).index)
        m.check(ref.protected & ref.en_sp <= left, 'protected species lost', h.log[-1])
        m.check(any(sp.get_charge() > 0 for sp in chem.get_species()), 'no positive ion left', h.log[-1])
    if deep:
        m.signature(gen.describe(spec), h.log)
        m.sample({'chemistry': gen.describe(spec), 'history': h.log})
