"""All chemistry-level views agree, with the attributes and with each other, in every state."""
import itertools

import numpy as np
import pandas as pd

from harness import gen, hist

RULE = ('random chemistry in a random state (disabled parts, protected species, ad-hoc values); every getter and matrix '
        'under every combination of its filters, against the reference; non-trivial: something is disabled and '
        'something is ad-hoc')
QUICK, THOROUGH = 480, 4500
MIN_EVENTS = {'series compared': 4000, 'matrices compared': 853}

SP = {'name': 'name', 'charge': 'q', 'mass': 'mass', 'h_form': 'h_form', 'lj_epsilon': 'lj_epsilon',
      'lj_sigma': 'lj_sigma'}


def compare_series(m, s, ids, exp, what):
    m.event('series compared')
    m.check(isinstance(s, pd.Series), what + ' is not a Series', type(s))
    m.check(list(s.index) == list(ids), what + ' covers the wrong set or order',
            lambda: 'expected ids {} observed {}'.format(list(ids), list(s.index)))
    for i, e in zip(ids, exp):
        m.check(hist.same(e, s.at[i]), what + ' has a wrong value',
                lambda: 'id {} expected {!r} observed {!r}'.format(i, e, s.at[i]))


def compare_matrix(m, df, rows, cols, fn, what):
    m.event('matrices compared')
    m.check(list(df.index) == list(rows) and list(df.columns) == list(cols), what + ' has wrong rows or columns',
            lambda: 'expected {} x {} observed {} x {}'.format(rows, cols, list(df.index), list(df.columns)))
    exp = np.array([[fn(r, c) for c in cols] for r in rows], dtype=float).reshape(len(rows), len(cols))
    obs = df.values.astype(float)
    bad = ~((exp == obs) | (np.isclose(exp, obs, rtol=1e-12, atol=0)) | (np.isnan(exp) & np.isnan(obs)))
    m.check(not bad.any(), what + ' has a wrong entry', lambda: 'expected {} observed {}'.format(exp, obs))


def check_all(m, chem, ref, objs):
    for disabled, special, protected in itertools.product([False, True], repeat=3):
        kw = dict(disabled=disabled, special=special, protected=protected)
        ids = ref.species_ids(**kw)
        s = chem.get_species(**kw)
        m.check(list(s.index) == ids, 'get_species covers the wrong set', lambda: (kw, ids, list(s.index)))
        m.check(all(s.at[i] is objs[i] for i in ids), 'get_species returns other objects', kw)
        m.check(list(chem.get_species_id(**kw)) == ids, 'get_species_id', lambda: (kw, ids, chem.get_species_id(**kw)))
        m.check(chem.num_species(**kw) == len(ids), 'num_species', kw)
        mask = np.asarray(chem.get_species_mask(**kw))
        m.check([i for i, b in zip(ref.order, mask) if b] == ids and len(mask) == len(ref.order),
                'get_species_mask', lambda: (kw, mask))
        for nm, key in SP.items():
            if not ids and nm in ('name',):
                continue
            compare_series(m, getattr(chem, 'get_species_' + nm)(**kw), ids, [ref.sp[i][key] for i in ids],
                           'get_species_{} {}'.format(nm, kw))
        compare_series(m, chem.get_species_stick_coef(**kw), ids, [ref.stick(i) for i in ids],
                       'get_species_stick_coef {}'.format(kw))
        compare_series(m, chem.get_species_ret_coefs(**kw), ids, [ref.ret(i) for i in ids],
                       'get_species_ret_coefs {}'.format(kw))
    for disabled in (False, True):
        rids = ref.reaction_ids(disabled)
        s = chem.get_reactions(disabled=disabled)
        m.check(list(s.index) == rids and all(s.at[i].id == i for i in rids), 'get_reactions', lambda: (rids, list(s.index)))
        m.check(list(chem.get_reactions_id(disabled=disabled)) == rids, 'get_reactions_id', disabled)
        mask = np.asarray(chem.get_reactions_mask(disabled=disabled))
        m.check([i for i, b in zip(ref.rorder, mask) if b] == rids, 'get_reactions_mask', disabled)
        for nm, exp in (('arrh_b', 'b'), ('arrh_c', 'c'), ('el_en_loss', 'el_en_loss'),
                        ('ges_heat_contrib', 'gas_heat_contrib'), ('elastic', 'elastic')):
            compare_series(m, getattr(chem, 'get_reactions_' + nm)(disabled=disabled), rids,
                           [ref.r[i][exp] for i in rids], 'get_reactions_{} disabled={}'.format(nm, disabled))
        for si in (True, False):
            compare_series(m, chem.get_reactions_arrh_a(disabled=disabled, si_units=si), rids,
                           [ref.arrh_a(i, si) for i in rids], 'get_reactions_arrh_a si={}'.format(si))
        e = ref.by_name['e']
        for method in ('lhs', 'rhs', 'net'):
            compare_series(m, chem.get_reactions_stoich_coefs_electron(disabled=disabled, method=method), rids,
                           [ref.stoich(r, e, method) for r in rids], 'electron coefficients ' + method)
            mm = ref.by_name.get('M')
            compare_series(m, chem.get_reactions_stoich_coefs_arbitrary(disabled=disabled, method=method), rids,
                           [0 if mm is None else ref.stoich(r, mm, method) for r in rids], 'M coefficients ' + method)
            for special in (False, True):
                ids = ref.species_ids(disabled=disabled, special=special)
                compare_matrix(m, chem.get_stoichiomatrix(disabled=disabled, special=special, method=method), rids,
                               ids, lambda r, c: ref.stoich(r, c, method), 'get_stoichiomatrix ' + method)
        for special in (False, True):
            ids = ref.species_ids(disabled=disabled, special=special)

            def entry(i, j):
                if ref.sp[i]['special'] or ref.sp[j]['special']:
                    return float('nan')
                return ref.ret(j).get(ref.sp[i]['name'], 0.)
            if not disabled or True:
                compare_matrix(m, chem.get_return_matrix(disabled=disabled, special=special), ids, ids, entry,
                               'get_return_matrix disabled={} special={}'.format(disabled, special))
    m.check(chem.num_reactions() == len(ref.reaction_ids()), 'num_reactions')
    m.check(list(chem.get_special_species().index) == [i for i in ref.order if ref.sp[i]['special']], 'special species')
    m.check(list(chem.get_disabled_species().index) == [i for i in ref.order if i not in ref.en_sp], 'disabled species')
    m.check(list(chem.get_disabled_reactions().index) == [i for i in ref.rorder if i not in ref.en_r],
            'disabled reactions')
    m.check(list(chem.get_protected_species().index) == [i for i in ref.order if i in ref.all_protected()],
            'protected species')
    for i in ref.order:
        for ident in (i, np.int64(i), ref.sp[i]['name'], objs[i]):
            m.check(chem.get_rp(ident) is objs[i], 'get_rp finds another species', lambda: repr(ident))
    for i in ref.rorder:
        m.check(chem.get_reaction(i).id == i, 'get_reaction finds another reaction', i)


def case(m, rng, i):
    spec = gen.gen_spec(rng)
    m.note(chemistry=gen.describe(spec))
    h = hist.History(m, rng, spec, gen.build(spec))
    h.random_state(steps=rng.randint(0, 9))
    check_all(m, h.chem, h.ref, h.objs)
    if len(h.ref.en_r) < len(h.ref.r) and (h.ref.adhoc_stick or h.ref.adhoc_ret or h.ref.adhoc_a):
        m.signature(gen.describe(spec), h.log)
        m.sample({'chemistry': gen.describe(spec), 'history': h.log,
                  'return coefficients': {i: h.ref.ret(i) for i in h.ref.order}})
