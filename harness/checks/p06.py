"""Ad-hoc kinetic overrides: exactly the overridden values change, in the right units, until reset."""
import numpy as np

from harness import gen, hist

RULE = ('random chemistry; random sequences of ad-hoc sets (all accepted number types, all ways to name a species), '
        'resets and disabling; after each, every value of every species and reaction, in SI and nominal units, against '
        'the reference, and the untouched species and reaction objects; non-trivial: at least one override replaces '
        'another, or one is made to a reaction with non-SI units')
QUICK, THOROUGH = 500, 5000
MIN_EVENTS = {'overrides set': 291, 'values compared': 20000, 'overrides reset': 51, 'non-SI overrides': 46}


def verify(m, h):
    chem, ref = h.chem, h.ref
    for disabled in (False, True):
        st = chem.get_species_stick_coef(disabled=disabled, special=True)
        rc = chem.get_species_ret_coefs(disabled=disabled, special=True)
        ids = ref.species_ids(disabled=disabled, special=True)
        m.check(list(st.index) == ids and list(rc.index) == ids, 'override changed which species are there')
        for i in ids:
            m.check(hist.same(ref.stick(i), st.at[i]), 'sticking coefficient',
                    lambda: '{}: expected {} observed {!r} after {}'.format(ref.sp[i]['name'], ref.stick(i), st.at[i], h.log))
            m.check(hist.same(ref.ret(i), rc.at[i]), 'return coefficients',
                    lambda: '{}: expected {} observed {!r} after {}'.format(ref.sp[i]['name'], ref.ret(i), rc.at[i], h.log))
        rm = chem.get_return_matrix(disabled=disabled)
        for j in rm.columns:
            exp = {ref.by_name[n]: c for n, c in (ref.ret(j) or {}).items()}
            for k in rm.index:
                m.check(hist.same(exp.get(k, 0.), float(rm.at[k, j])), 'return matrix',
                        lambda: '{} per {}: expected {} observed {} after {}'.format(k, j, exp.get(k, 0.), rm.at[k, j], h.log))
        for si in (True, False):
            a = chem.get_reactions_arrh_a(disabled=disabled, si_units=si)
            m.check(list(a.index) == ref.reaction_ids(disabled), 'override changed which reactions are there')
            for i in a.index:
                m.check(hist.same(ref.arrh_a(i, si), a.at[i]), 'pre-exponential factor',
                        lambda: 'R{} si={}: expected {} observed {!r} after {}'.format(i, si, ref.arrh_a(i, si), a.at[i], h.log))
        m.event('values compared', 2 * len(ids) + 2 * len(ref.rorder))
    for i, rp in h.objs.items():
        m.check(hist.same(ref.sp[i]['stick_coef'], rp.get_stick_coef()) and
                hist.same(ref.sp[i]['ret_coefs'], rp.get_ret_coefs()), 'override leaked into the species', rp.get_name())
    for r in chem.get_reactions(disabled=True):
        m.check(hist.same(ref.r[r.id]['a'], r.get_arrh_a(si_units=False)), 'override leaked into the reaction', r.id)


def case(m, rng, i):
    spec = gen.gen_spec(rng)
    m.note(chemistry=gen.describe(spec))
    h = hist.History(m, rng, spec, gen.build(spec))
    ref, chem = h.ref, h.chem
    heavy = [j for j in ref.order if not ref.sp[j]['special']]
    nontrivial = False
    focus = rng.sample(heavy, min(2, len(heavy)))
    for _ in range(rng.randint(3, 10)):
        op = rng.choice(['stick', 'stick', 'ret', 'ret', 'a', 'a', 'reset', 'disable', 'enable'])
        j = rng.choice(focus + heavy)
        if op == 'stick':
            v = rng.choice([0., 1., 0.5, round(rng.random(), 6)])
            raw = gen.num(rng, v)
            h.log.append('stick {} = {!r}'.format(ref.sp[j]['name'], raw))
            chem.set_adhoc_species_attributes('stick_coef', h.ident(j), raw)
            nontrivial |= j in ref.adhoc_stick
            ref.adhoc_stick[j] = v
            m.event('overrides set')
        elif op == 'ret':
            pool = [ref.sp[k]['name'] for k in heavy if k in ref.en_sp]
            v = {n: round(rng.random(), 6) for n in rng.sample(pool, rng.randint(0, min(4, len(pool))))}
            raw = {n: gen.num(rng, c) for n, c in v.items()}
            h.log.append('ret {} = {!r}'.format(ref.sp[j]['name'], raw))
            chem.set_adhoc_species_attributes('ret_coefs', h.ident(j), raw)
            nontrivial |= j in ref.adhoc_ret
            ref.adhoc_ret[j] = v
            m.event('overrides set')
        elif op == 'a':
            k = rng.choice(ref.rorder)
            v = rng.choice([0., 1., ref.r[k]['a'] * rng.choice([.1, 1.5, 100.]), float('{:.3e}'.format(10. ** rng.uniform(-30, 3)))])
            raw = gen.num(rng, v)
            h.log.append('arrh_a R{} = {!r}'.format(k, raw))
            chem.set_adhoc_reactions_attributes('arrh_a', k, raw)
            nontrivial |= ref.r[k]['factor'] != 1.
            if ref.r[k]['factor'] != 1.:
                m.event('non-SI overrides')
            ref.adhoc_a[k] = v
            m.event('overrides set')
        elif op == 'reset':
            which = rng.choice(['stick_coef', 'ret_coefs', 'all', 'arrh_a', 'all reactions'])
            h.log.append('reset ' + which)
            if which in ('arrh_a', 'all reactions'):
                chem.reset_adhoc_reactions_attributes(which.split()[0])
                ref.adhoc_a = {}
            else:
                chem.reset_adhoc_species_attributes(which)
                if which in ('stick_coef', 'all'):
                    ref.adhoc_stick = {}
                if which in ('ret_coefs', 'all'):
                    ref.adhoc_ret = {}
            m.event('overrides reset')
        elif op == 'disable':
            h.do_disable()
        else:
            h.do_reset()
        m.note(history=h.log)
        verify(m, h)
    if nontrivial:
        m.signature(gen.describe(spec), h.log)
        m.sample({'chemistry': gen.describe(spec), 'history': h.log})
