"""Which sets of species and reactions are accepted as a chemistry."""
import copy
import os
from xml.etree import ElementTree

from harness import gen
from harness.checks import p35

RULE = ('random species and reactions, consistent or with exactly one inconsistency of a random kind planted (electron '
        'missing, no positive ion, a species missing, unused, given twice, under a taken id or name, an equal copy used '
        'by a reaction, a taken id of a reaction, unknown species returned from the walls, incomplete arguments), for '
        'plasma and neutral chemistries, built directly or read from an input file; non-trivial: at least 3 kinds of '
        'inconsistency refused')
QUICK, THOROUGH = 600, 8000
KINDS = ['electron missing', 'no positive ion', 'species missing', 'species unused', 'species given twice',
         'species with a taken id', 'species with a taken name', 'copy of a species in a reaction',
         'reaction with a taken id', 'unknown species returned', 'reaction given twice']
MIN_EVENTS = {'consistent accepted': 100, 'neutral accepted': 25, 'incomplete arguments refused': 700,
              'read from a file': 60, 'refused: species missing': 80, 'refused: electron missing': 20,
              'refused: no positive ion': 6, 'refused: species unused': 80, 'refused: species given twice': 80,
              'refused: species with a taken id': 80, 'refused: species with a taken name': 60,
              'refused: copy of a species in a reaction': 80, 'refused: reaction with a taken id': 80,
              'refused: unknown species returned': 80, 'refused: reaction given twice': 80}


def clone_rp(rng, s, **changes):
    from plaschem.species import RP
    at = dict(s['attrs'])
    i = changes.pop('id', s['id'])
    at.update(changes)
    return RP(i, attributes=at, units=dict(s['units']))


def reaction_of(r, lhs, rhs, r_id=None):
    from plaschem.reactions import Reaction
    return Reaction(r['id'] if r_id is None else r_id, lhs, rhs, attributes=dict(r['attrs']), units=dict(r['units']))


def without(spec, gone, rng):
    """The chemistry without some species, their reactions, and species which only appear there."""
    gone = set(gone)
    while True:
        rs = [r for r in spec['reactions'] if not gone & set(r['lhs'] + r['rhs'])]
        used = {i for r in rs for i in r['lhs'] + r['rhs']}
        sp = [s for s in spec['species'] if s['id'] in used]
        names = {s['name'] for s in sp}
        bad = {s['id'] for s in sp if s['ret_coefs'] and not set(s['ret_coefs']) <= names}
        if not bad:
            return {'species': sp, 'reactions': rs}
        gone |= bad


def plant(rng, kind, spec, neutral):
    """Species and reactions with one inconsistency, or None when it cannot be planted here."""
    names = {s['name'] for s in spec['species']}
    by = {s['id']: s for s in spec['species']}
    if kind in ('electron missing', 'no positive ion'):
        if neutral:
            return None
        gone = {s['id'] for s in spec['species'] if (s['name'] == 'e' if kind[0] == 'e' else (s['q'] or 0) > 0)}
        left = without(spec, gone, rng)
        if not left['reactions'] or (kind[0] == 'e') != any((s['q'] or 0) > 0 for s in left['species']) or \
                (kind[0] == 'e') == any(s['name'] == 'e' for s in left['species']):
            return None
        return gen.build_objects(left)
    sp, rs = gen.build_objects(spec)
    heavy = [k for k, s in enumerate(spec['species']) if s['form']]
    if kind == 'species missing':
        # neither the electron, the only positive ion nor anything returned: nothing else is wrong
        pos = [k for k in heavy if spec['species'][k]['q'] > 0]
        returned = {n for s in spec['species'] for n in s['ret_coefs'] or ()}
        cand = [k for k, s in enumerate(spec['species']) if s['name'] != 'e' and pos != [k] and
                s['name'] not in returned]
        if not cand:
            return None
        del sp[rng.choice(cand)]
    elif kind == 'species unused':
        form = rng.choice(['Kr', 'Xe', 'U2'])
        extra = {'id': max(by) + rng.randint(1, 9), 'attrs': {'name': form, 'mass': 100.}, 'units': {}}
        sp.insert(rng.randint(0, len(sp)), clone_rp(rng, extra))
    elif kind == 'species given twice':
        sp.insert(rng.randint(0, len(sp)), rng.choice(sp))
    elif kind in ('species with a taken id', 'species with a taken name'):
        k = rng.choice(heavy)
        s = spec['species'][k]
        if kind.endswith('id'):
            other = rng.choice([o for o in by if o != s['id']])
            twin = clone_rp(rng, s, id=other)
        else:
            # the name of another species, the composition of this one
            twin = clone_rp(rng, s, id=max(by) + rng.randint(1, 9))
        r_k = [j for j, r in enumerate(spec['reactions']) if s['id'] in r['lhs'] + r['rhs']]
        j = rng.choice(r_k)
        r = spec['reactions'][j]
        objs = {q.id: q for q in sp}
        if kind.endswith('id'):
            # the twin stands for the species everywhere: only its id is wrong
            def of(i):
                return twin if i == s['id'] else objs[i]
            rs = [reaction_of(r, [of(i) for i in r['lhs']], [of(i) for i in r['rhs']]) for r in spec['reactions']]
            sp[k] = twin
        else:
            def of(i):
                return twin if i == s['id'] else objs[i]
            rs.insert(rng.randint(0, len(rs)), reaction_of(
                r, [of(i) for i in r['lhs']], [of(i) for i in r['rhs']], max(q['id'] for q in spec['reactions']) + 1))
            sp.insert(rng.randint(0, len(sp)), twin)
    elif kind == 'copy of a species in a reaction':
        s = rng.choice(spec['species'])
        r_k = [j for j, r in enumerate(spec['reactions']) if s['id'] in r['lhs'] + r['rhs']]
        j = rng.choice(r_k)
        r = spec['reactions'][j]
        objs = {q.id: q for q in sp}
        copy = clone_rp(rng, s)
        used = [i for q in spec['reactions'] if q is not r for i in q['lhs'] + q['rhs']]
        if s['id'] not in used:         # the species would look unused, too
            if len(r['lhs'] + r['rhs']) < 2 or (r['lhs'] + r['rhs']).count(s['id']) < 2:
                return None
            side = rng.choice([0, 1])
            first = [0]

            def of(i, where):
                if i == s['id'] and where == side:
                    return copy
                return objs[i]
            if s['id'] not in r['lhs'] or s['id'] not in r['rhs']:
                return None
        else:
            def of(i, where):
                return copy if i == s['id'] else objs[i]
        rs[j] = reaction_of(r, [of(i, 0) for i in r['lhs']], [of(i, 1) for i in r['rhs']])
    elif kind == 'reaction with a taken id':
        j = rng.randrange(len(rs))
        r = rng.choice(spec['reactions'])
        objs = {q.id: q for q in sp}
        rs.insert(rng.randint(0, len(rs)), reaction_of(r, [objs[i] for i in r['lhs']], [objs[i] for i in r['rhs']],
                                                       rs[j].id))
    elif kind == 'reaction given twice':
        rs.insert(rng.randint(0, len(rs)), rng.choice(rs))
    elif kind == 'unknown species returned':
        k = rng.choice(heavy)
        s = spec['species'][k]
        name = rng.choice([n for n in ('Xe', 'Kr', 'N7', 'U') if n not in names])
        ret = dict(s['ret_coefs'] or {}) if rng.random() < .6 else {}
        ret[name] = rng.choice([.1, .5, 1., 1e-9, 0.])
        new = clone_rp(rng, s, ret_coefs=ret, stick_coef=s['stick_coef'] or rng.choice([.2, 1.]))
        objs = {q.id: q for q in sp}
        objs[s['id']] = new
        sp[k] = new
        rs = [reaction_of(r, [objs[i] for i in r['lhs']], [objs[i] for i in r['rhs']]) for r in spec['reactions']]
    return sp, rs


def from_file(m, rng, spec, chem):
    """The same through an input file with one element missing or repeated."""
    from plaschem.chemistry import Chemistry
    from plaschem.exceptions import ChemistryConsistencyError as ChemistryError
    from plaschem.xml_inputs import XmlBuilder
    path = os.path.join(m.tmp, 'c.xml')
    b = XmlBuilder()
    b.add_chemistry_from_instance(chem)
    b.dump_xml(path)
    tree = ElementTree.parse(path)
    sp, rs = tree.getroot().find('species'), tree.getroot().find('reactions')
    kind = rng.choice(['species missing', 'species repeated', 'reaction repeated', 'species renumbered',
                       'reaction renumbered', 'species unused'])
    m.note(kind='file: ' + kind)
    if kind == 'species missing':
        sp.remove(rng.choice(list(sp)))
    elif kind == 'species repeated':
        sp.append(copy.deepcopy(rng.choice(list(sp))))
    elif kind == 'reaction repeated':
        rs.append(copy.deepcopy(rng.choice(list(rs))))
    elif kind == 'species unused':
        new = copy.deepcopy(rng.choice([x for x in sp if x.find('name').text not in 'eM']))
        new.set('id', '777')
        new.find('name').text = 'Xe'
        for tag in ('state', 'stateless', 'ret_coefs', 'charge'):
            if new.find(tag) is not None:
                new.remove(new.find(tag))
        sp.append(new)
    else:
        els = list(sp if kind.startswith('species') else rs)
        if len(els) < 2:
            return
        x, y = rng.sample(els, 2)
        x.set('id', y.get('id'))
    bad = os.path.join(m.tmp, 'bad.xml')
    tree.write(bad, encoding='utf-8')
    m.check(len(Chemistry(xml_path=path).get_species(special=True)) == len(spec['species']), 'consistent file refused')
    m.event('read from a file')
    try:
        Chemistry(xml_path=bad)
    except (ChemistryError, KeyError):
        m.event('refused from a file: ' + kind)
    else:
        m.fail('accepted from a file: ' + kind, open(bad).read())


def case(m, rng, i):
    from plaschem.chemistry import Chemistry
    from plaschem.exceptions import ChemistryConsistencyError, ChemistryInitError
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry
    neutral = rng.random() < .25
    cls = NeutralChemistry if neutral else Chemistry
    spec = p35.gen_neutral(rng)[0] if neutral else gen.gen_spec(rng)
    if spec is None:
        return
    m.note(chemistry=gen.describe(spec), neutral=neutral)
    # consistent sets are accepted, as they are
    sp, rs = gen.build_objects(spec)
    box = rng.choice([list, tuple])
    try:
        chem = cls(species=box(sp), reactions=box(rs))
    except Exception as err:
        m.fail('consistent set refused', repr(err))
        return
    m.event('neutral accepted' if neutral else 'consistent accepted')
    m.check([x is y for x, y in zip(chem.get_species(special=True), sp)] == [True] * len(sp) and
            len(chem.get_species(special=True)) == len(sp), 'species of the chemistry are not the given ones')
    m.check([x is y for x, y in zip(chem.get_reactions(), rs)] == [True] * len(rs) and
            len(chem.get_reactions()) == len(rs), 'reactions of the chemistry are not the given ones')
    m.check(chem.assert_consistency() is None, 'consistent chemistry reported inconsistent')
    # incomplete arguments
    for kw in ({}, {'species': sp}, {'reactions': rs}, {'species': sp, 'xml_path': 'x.xml'},
               {'reactions': rs, 'xml_path': 'x.xml'}, {'species': [], 'xml_path': 'x.xml'}):
        m.raises(ChemistryInitError, 'incomplete arguments accepted', cls, **kw)
        m.event('incomplete arguments refused')
    # inconsistent ones are refused
    done = set()
    for kind in rng.sample(KINDS, 6):
        got = plant(rng, kind, spec, neutral)
        if got is None:
            continue
        m.note(kind=kind, given=[[(s.id, s.get_name()) for s in got[0]], [(r.id, str(r)) for r in got[1]]])
        m.raises(ChemistryConsistencyError, 'accepted: ' + kind, cls, species=box(got[0]), reactions=box(got[1]))
        m.event('refused: ' + kind)
        done.add(kind)
    if not neutral:
        from_file(m, rng, spec, chem)
    if len(done) >= 3:
        m.signature(spec, sorted(done))
