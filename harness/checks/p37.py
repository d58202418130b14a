"""Import from QDB: records in, chemistry out."""
import re

from harness import gen, hist

RULE = ('random chemistry stored as duck-typed records of the QDB database (species with several states, lumped and '
        'resolved reactions, several datasets with cross sections or Arrhenius parameters, citations, missing values), '
        'imported whole or reaction by reaction, dumped, parsed and compared; then records which cannot be imported; '
        'non-trivial: at least 3 reactions imported with 2 kinds of data')
QUICK, THOROUGH = 1600, 12000
MIN_EVENTS = {'chemistries imported': 150, 'reactions imported': 1500, 'lumped reactions': 80, 'cross sections': 500,
              'arrhenius parameters': 500, 'choices of a dataset': 200, 'energy losses': 150, 'refused records': 300}
ASSUMPTIONS = ['The QDB database (Django) is not available: stand-ins of its records answer the queries the builder makes']


def lookup(obj, path):
    for p in path:
        if p == 'pk' and isinstance(obj, int):
            return obj
        obj = getattr(obj, p)
    return obj


class Query(list):
    """The part of a Django query set which makes sense of a list."""

    def all(self):
        return Query(self)

    def count(self):
        return len(self)

    def exists(self):
        return bool(self)

    def first(self):
        return self[0] if self else None

    def filter(self, **kw):
        out = Query(self)
        for key, val in kw.items():
            path = key.split('__')
            op = path.pop() if path[-1] in ('in', 'startswith', 'endswith', 'exact', 'gt', 'lt') else 'exact'
            test = {'in': lambda x: x in val, 'startswith': lambda x: x.startswith(val), 'exact': lambda x: x == val,
                    'endswith': lambda x: x.endswith(val), 'gt': lambda x: x > val, 'lt': lambda x: x < val}[op]
            out = Query(o for o in out if test(lookup(o, path)))
        return out


class Rec:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def maybe(rng, val, p=.5, none=None):
    return val if rng.random() < p else none


def make_rp(rng, s, pk, lumped=False):
    form = s['form'] or s['name']
    if s['name'] == 'e':
        ordinary = 'e-'
    elif not s['form']:
        ordinary = 'M'
    else:
        q = s['q']
        ordinary = form + ('' if not q else ('+' if q > 0 else '-') + (str(abs(q)) if abs(q) > 1 else ''))
    states = []
    if s['label']:
        states = s['label'].split(',')
    return Rec(pk=pk, ordinary_formula=ordinary, state=Query(Rec(state_str=x) for x in states), mass=s['mass'],
               charge=s['q'] or 0, hform=s.get('h_form'), lj_epsilon=s.get('eps'), lj_sigma=s.get('sigma'),
               hpem=s.get('hpem'))


def make_dataset(rng, pk, kind, n, electron):
    """Returns the record and what is expected of it: (a, a unit, b, c, c unit, threshold, special number)."""
    b = rng.choice([0., round(rng.uniform(-2, 2), 3)])
    c = rng.choice([0., round(rng.uniform(-1, 15), 3)])
    a = float('{:.4e}'.format(10 ** rng.uniform(-35, 5)))
    entry = rng.choice([None, None, 0, 12, -1, -10, -1003])
    cites = Query(Rec(doi=d) for d in rng.choice([[], [None], ['None', '10.1/x'], [None, '10.2/y', '10.3/z'], ['10.4/w']]))
    thresh = None
    if kind == 'xsec':
        thresh = rng.choice([0., round(rng.uniform(0, 20), 3)])
        stored = rng.random() < .5
        ds = Rec(pk=pk, dataset_type=Rec(pk=2), is_xsec=lambda: True, is_arrhenius=lambda: False,
                 fit_arrhenius=lambda: ((a, .1), (b, .2), (c, .3)),
                 threshold=rng.choice([thresh, str(thresh)]) if stored else None,
                 get_thresh=lambda: thresh + 1 if stored else thresh, parameter_set=Query())
        a_unit, c_unit = {2: 'cm3.s-1', 3: 'cm6.s-1'}.get(n), 'eV'
    else:
        a_unit = {1: 's-1', 2: rng.choice(['cm3.s-1', 'm3.s-1']), 3: rng.choice(['cm6.s-1', 'm6.s-1'])}[n]
        c_unit = 'eV' if electron else 'K'
        if not electron:
            c = c * 1000
        params = [Rec(value=rng.choice([a, repr(a)]), meta=Rec(name=rng.choice(['A', 'A0', 'Arrh']), units=a_unit)),
                  Rec(value=rng.choice([b, repr(b)]), meta=Rec(name='n', units='')),
                  Rec(value=rng.choice([c, repr(c)]), meta=Rec(name=rng.choice(['E', 'act_E']), units=c_unit))]
        rng.shuffle(params)
        ds = Rec(pk=pk, dataset_type=Rec(pk=rng.choice([1, 3])), is_xsec=lambda: False, is_arrhenius=lambda: True,
                 parameter_set=Query(params), threshold=None)
        thresh = max(0, c)
    ds.entry_id, ds.citations = entry, cites
    doi = [x.doi for x in cites if x.doi not in (None, 'None')]
    return ds, {'a': a, 'a_unit': a_unit, 'b': b, 'c': c, 'c_unit': c_unit, 'loss': thresh, 'pk': pk, 'kind': kind,
                'special': entry if entry is not None and entry < 0 else None, 'doi': doi[0] if doi else None}


def name_of(qdb_rp):
    base = {'e-': 'e'}.get(qdb_rp.ordinary_formula, qdb_rp.ordinary_formula)
    base = re.sub(r'([+-])([23])$', lambda k: k.group(1) * int(k.group(2)), base)
    label = ','.join(x.state_str for x in qdb_rp.state)
    return base, label if not label.strip('*') else '(' + label + ')'


def string(lhs, rhs):
    return ' + '.join(''.join(name_of(x)) for x in lhs) + ' > ' + ' + '.join(''.join(name_of(x)) for x in rhs)


def case(m, rng, i):
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    from plaschem.exceptions import XmlError
    spec = gen.gen_spec(rng, states=rng.random() < .7)
    pks = rng.sample(range(1, 4000), 400)
    rps = {}
    for s in spec['species']:
        s = dict(s, h_form=rng.choice([None, 0., round(rng.uniform(-5, 20), 3)]), hpem=rng.choice([None, '', s['name'][:4]]),
                 eps=maybe(rng, round(rng.uniform(5, 500), 2)), sigma=maybe(rng, round(rng.uniform(2, 5), 2)))
        s['label'] = s['attrs'].get('state')
        if s['label'] and rng.random() < .2 and '*' not in s['label']:
            s['label'] = rng.choice(['{},v={}', 'v={1},{0}']).format(s['label'], s['id'] + 20)
        rps[s['id']] = make_rp(rng, s, pks.pop())
    reactions, expected = [], []
    kinds = set()
    for r in spec['reactions']:
        lhs, rhs = [rps[j] for j in r['lhs']], [rps[j] for j in r['rhs']]

        def resolved(k):
            """A reaction with datasets, and what is expected of it."""
            electron = any(x.ordinary_formula == 'e-' for x in lhs)
            sets = [make_dataset(rng, pks.pop(), rng.choice(['xsec', 'arrh']) if len(lhs) > 1 and electron else 'arrh',
                                 len(lhs), electron) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            want = [d for d in sets if d[1]['kind'] == ('xsec' if electron else 'arrh')] or sets
            q = Rec(pk=pks.pop(), parent_reaction=Query(), child_reactions=Query(), reactants=Query(lhs),
                    products=Query(rhs), reactiondataset_set=Query(d[0] for d in sets))
            q.get_all_rps = lambda: Query(dict.fromkeys(list(q.reactants) + list(q.products)))
            m.event('choices of a dataset', len(sets) > 1)
            return q, dict(want[0][1], lhs=lhs, rhs=rhs, electron=electron, qpk=q.pk, comment=None)
        if rng.random() < .15:
            # species resolved into states: their data, the lumped species
            m.event('lumped reactions')
            lump = Rec(pk=pks.pop(), child_reactions=Query(), reactants=Query(lhs), products=Query(rhs),
                       reactiondataset_set=Query(), parent_reaction=Query())
            lump.get_all_rps = lambda a=lhs, b=rhs: Query(dict.fromkeys(a + b))
            for k in range(rng.choice([1, 2, 3])):
                q, e = resolved(k)
                extra = [Rec(pk=pks.pop(), ordinary_formula=x.ordinary_formula,
                             state=Query([Rec(state_str='v={}'.format(10 + k))] if x.ordinary_formula not in ('e-', 'M')
                                         else []), mass=x.mass, charge=x.charge, hform=None, lj_epsilon=None,
                             lj_sigma=None, hpem=None) for x in rhs]
                q.products = Query(extra)
                q.child_reactions = Query([lump])
                lump.parent_reaction.append(q)
                e['comment'] = string(q.reactants, q.products)
                expected.append(e)
            reactions.append(lump)
        else:
            q, e = resolved(0)
            reactions.append(q)
            expected.append(e)
    for e in expected:
        m.event('cross sections' if e['kind'] == 'xsec' else 'arrhenius parameters')
        kinds.add(e['kind'])
    m.note(reactions=[string(e['lhs'], e['rhs']) for e in expected], expected=[{k: v for k, v in e.items() if k not in
           ('lhs', 'rhs')} for e in expected])
    b = XmlBuilder()
    if rng.random() < .6:
        b.add_chemistry_from_qdb(Rec(get_reactions=lambda: Query(reactions)))
    else:
        if rng.random() < .5:       # some of the species are there already
            for x in rng.sample(list(rps.values()), rng.randint(1, len(rps))):
                b.add_rp_from_qdb(x)
                m.raises(XmlError, 'species added twice', b.add_rp_from_qdb, x)
                m.event('refused records')
        for q in reactions:
            b.add_reaction_from_qdb(q)
    path = m.tmp + '/qdb.xml'
    b.dump_xml(path)
    species, got = XmlParser().get_species_and_reactions(path)
    m.event('chemistries imported')
    m.event('reactions imported', len(got))
    used = {x.pk: x for e in expected for x in e['lhs'] + e['rhs']}
    by_pk = {x.id: x for x in species}
    m.check(set(used) <= set(by_pk) and set(by_pk) <= {x.pk for x in rps.values()} and len(by_pk) == len(species),
            'imported species', lambda: (sorted(used), sorted(by_pk)))
    same = lambda a, b: a is None and b is None or a is not None and b is not None and abs(a - b) <= 1e-12 * abs(b)
    for pk, x in by_pk.items():
        rec = {y.pk: y for y in rps.values()}[pk]
        base, label = name_of(rec)
        m.check(x.get_name() == base + label, 'name of a species', lambda: (x.get_name(), base, label))
        # what is special about electrons and M is judged in P09
        if base in ('e', 'M'):
            continue
        m.check(x.get_charge() == rec.charge, 'charge of a species', lambda: (x.get_name(), x.get_charge()))
        m.check(same(x.get_mass(), rec.mass), 'mass of a species', lambda: (x.get_name(), x.get_mass(), rec.mass))
        m.check(x.get_stateless() == base, 'stateless name', lambda: (x.get_stateless(), base))
        if rec.hform:
            m.check(same(x.get_h_form(), rec.hform), 'enthalpy of formation', lambda: (x.get_h_form(), rec.hform))
        if rec.lj_epsilon:
            m.check(same(x.get_lj_epsilon(), rec.lj_epsilon), 'lj_epsilon', lambda: (x.get_lj_epsilon(), rec.lj_epsilon))
        if rec.lj_sigma:
            m.check(same(x.get_lj_sigma(), rec.lj_sigma), 'lj_sigma', lambda: (x.get_lj_sigma(), rec.lj_sigma))
        m.check(x.get_hpem_name() == rec.hpem if rec.hpem else True, 'hpem name')
    m.check([x.id for x in got] == [e['qpk'] for e in expected], 'imported reactions',
            lambda: ([x.id for x in got], [e['qpk'] for e in expected]))
    for x, e in zip(got, expected):
        what = (string(e['lhs'], e['rhs']), {k: v for k, v in e.items() if k not in ('lhs', 'rhs')})
        m.check([y.id for y in x.get_reactants()] == [y.pk for y in e['lhs']] and
                [y.id for y in x.get_products()] == [y.pk for y in e['rhs']], 'members of a reaction',
                lambda: (str(x), what))
        m.check(same(x.get_arrh_a(si_units=False), e['a']) and x.get_unit('arrh_a') == e['a_unit'], 'pre-exponential factor',
                lambda: (x.get_arrh_a(si_units=False), x.get_unit('arrh_a'), what))
        m.check(same(x.get_arrh_b(), e['b']) and same(x.get_arrh_c(), e['c']), 'arrhenius parameters',
                lambda: (x.get_arrh_b(), x.get_arrh_c(), what))
        names = lambda side: sorted(''.join(name_of(y)) for y in side)
        loss = e['loss'] if e['electron'] and names(e['lhs']) != names(e['rhs']) and 'e' in names(e['rhs']) else 0.
        m.event('energy losses', bool(loss))
        m.check(same(x.get_el_en_loss(), float(loss)) if loss else not x.get_el_en_loss(), 'energy loss of electrons',
                lambda: (x.get_el_en_loss(), loss, what))
        m.check(x.get_special_number() == (e['special'] or (10 if e['electron'] else 20)), 'special number', lambda: (x.get_special_number(), what))
        m.check(x.get_qdb_r_id() == e['qpk'] and x.get_qdb_ds_id() == e['pk'], 'identifiers of the data',
                lambda: (x.get_qdb_r_id(), x.get_qdb_ds_id(), what))
        m.check(x.get_doi() == e['doi'], 'doi', lambda: (x.get_doi(), what))
        m.check(x.get_comments() == e['comment'], 'comments', lambda: (x.get_comments(), what))
    if len(got) >= 3 and len(kinds) == 2:
        m.signature([what[0] for what in [(string(e['lhs'], e['rhs']),) for e in expected]], sorted(e['a'] for e in expected))
        m.sample([string(e['lhs'], e['rhs']) for e in expected][:5])
    # --- records which cannot be imported
    whole = [q for q in reactions if not q.parent_reaction]
    if not whole:
        return
    q = rng.choice(whole)
    b = XmlBuilder()
    how = rng.choice(['no datasets', 'children', 'A', 'n', 'E', 'neither', 'reactants'])
    n = len(q.reactants)
    electron = any(x.ordinary_formula == 'e-' for x in q.reactants)
    if how == 'no datasets':
        q.reactiondataset_set = Query()
    elif how == 'children':
        q.child_reactions = Query([rng.choice(reactions), rng.choice(reactions)])
    elif how == 'reactants':
        if n == 2 or n == 3:
            q.reactants = Query(list(q.reactants) * 2) if rng.random() < .5 else Query(list(q.reactants)[:1])
        q.reactiondataset_set = Query([make_dataset(rng, 1, 'xsec', 2, True)[0]])
    elif how == 'neither':
        ds = make_dataset(rng, 1, 'arrh', n, electron)[0]
        ds.is_arrhenius = lambda: False
        q.reactiondataset_set = Query([ds])
    else:
        ds = make_dataset(rng, 1, 'arrh', n, electron)[0]
        drop = {'A': lambda k: k.startswith('A'), 'n': lambda k: k == 'n', 'E': lambda k: k.endswith('E')}[how]
        ds.parameter_set = Query(x for x in ds.parameter_set if not drop(x.meta.name))
        q.reactiondataset_set = Query([ds])
    m.note(bad=how)
    m.raises(XmlError, 'reaction which cannot be imported: ' + how, b.add_reaction_from_qdb, q)
    m.check(not b.reactions, 'a refused reaction was added')
    m.event('refused records')
