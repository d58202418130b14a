"""Chemistry input files: what is built into a file is what is read from it."""
import os

from harness import gen, hist

RULE = ('random chemistry (all attribute types, units, ids, comma-bearing state names, special characters in comments) '
        'written through every way the builder offers and read back; sorting, id assignment, merging two files and '
        'refused overwrites included; non-trivial: at least 4 reactions and an attribute given as a string or with an '
        'explicit unit')
QUICK, THOROUGH = 170, 4500
MIN_EVENTS = {'files read back': 201, 'attributes compared': 8000, 'sorted files': 31, 'merged files': 21, 'duplicate ids sorted': 15,
              'locales': 4, 'arguments kept': 300}

RP_GET = {'name': 'get_name', 'mass': 'get_mass', 'h_form': 'get_h_form', 'lj_epsilon': 'get_lj_epsilon',
          'lj_sigma': 'get_lj_sigma', 'stick_coef': 'get_stick_coef', 'ret_coefs': 'get_ret_coefs'}
R_GET = {'b': 'get_arrh_b', 'c': 'get_arrh_c', 'el_en_loss': 'get_el_en_loss',
         'gas_heat_contrib': 'get_gas_heat_contrib', 'special_number': 'get_special_number', 'elastic': 'get_elastic'}


def text(v):
    return None if v in (None, '') else str(v)


def compare_species(m, rp, s, check_id=True):
    m.event('attributes compared', 12)
    if check_id:
        m.check(rp.id == s['id'], 'species id', (rp.id, s['id']))
    for k, g in RP_GET.items():
        m.check(hist.same(s[k], getattr(rp, g)()), 'species attribute ' + k,
                lambda: '{}: wrote {!r} read {!r}'.format(s['name'], s[k], getattr(rp, g)()))
    m.check(rp.get_charge() == s['q'], 'species charge', lambda: (s['name'], s['q'], rp.get_charge()))
    m.check(rp.get_atoms() == s['atoms'], 'species atoms', lambda: (s['name'], s['atoms'], rp.get_atoms()))
    at = s['attrs']
    m.check(rp.get_comments() == text(at.get('comments')), 'species comments', lambda: (at.get('comments'), rp.get_comments()))
    m.check(rp.get_hpem_name() == text(at.get('hpem_name')), 'species hpem_name')
    m.check(text(rp.get_qdb_id()) == text(at.get('qdb_id')), 'species qdb_id')
    m.check(rp.get_state() == (None if s['special'] else text(at.get('state'))), 'species state', s['name'])
    m.check(rp.get_stateless() == text(at.get('stateless', s['name'])), 'species stateless name', s['name'])


def compare_reaction(m, r, spec_r, names, check_id=True):
    m.event('attributes compared', 12)
    if check_id:
        m.check(r.id == spec_r['id'], 'reaction id', (r.id, spec_r['id']))
    lhs, rhs = [rp.get_name() for rp in r.get_reactants()], [rp.get_name() for rp in r.get_products()]
    m.check(lhs == [names[i] for i in spec_r['lhs']] and rhs == [names[i] for i in spec_r['rhs']],
            'reactants or products', lambda: (str(r), spec_r['lhs'], spec_r['rhs']))
    for k, g in R_GET.items():
        m.check(hist.same(spec_r[k], getattr(r, g)()), 'reaction attribute ' + k,
                lambda: 'R{}: wrote {!r} read {!r}'.format(r.id, spec_r[k], getattr(r, g)()))
    m.check(hist.same(spec_r['a'], r.get_arrh_a(si_units=False)), 'reaction attribute arrh_a',
            lambda: 'R{}: wrote {!r} read {!r}'.format(r.id, spec_r['a'], r.get_arrh_a(si_units=False)))
    m.check(hist.same(spec_r['a'] * spec_r['factor'], r.get_arrh_a()), 'reaction attribute arrh_a in SI', r.id)
    m.check(r.get_unit('arrh_a') == spec_r['unit'], 'reaction unit', r.id)
    at = spec_r['attrs']
    m.check(r.get_comments() == text(at.get('comments')) and r.get_doi() == text(at.get('doi')) and
            text(r.get_qdb_r_id()) == text(at.get('qdb_r_id')), 'reaction comments, doi or qdb id', r.id)


def compare(m, spec, species, reactions, order=True):
    m.event('files read back')
    by = {s['name']: s for s in spec['species']}
    names = {s['id']: s['name'] for s in spec['species']}
    m.check(sorted(rp.get_name() for rp in species) == sorted(by), 'species lost, invented or renamed',
            lambda: ([rp.get_name() for rp in species], sorted(by)))
    if order:
        m.check([rp.get_name() for rp in species] == [s['name'] for s in spec['species']], 'order of the species',
                lambda: ([rp.get_name() for rp in species], [s['name'] for s in spec['species']]))
    for rp in species:
        compare_species(m, rp, by[rp.get_name()])
    rs = {r['id']: r for r in spec['reactions']}
    m.check(sorted(r.id for r in reactions) == sorted(rs), 'reactions lost or invented')
    if order:
        m.check([r.id for r in reactions] == [r['id'] for r in spec['reactions']], 'order of the reactions')
    for r in reactions:
        compare_reaction(m, r, rs[r.id], names)
        for rp in r.get_reactants() + r.get_products():
            m.check(any(rp is sp for sp in species), 'reaction points to another species object', str(r))


def commas(rng, spec):
    """Names with several states, as made from database records."""
    ren = {}
    for s in spec['species']:
        if s['excited'] and rng.random() < .5:
            new = '{}(v={},J={})'.format(s['attrs']['stateless'], rng.randint(0, 9), rng.randint(0, 9))
            if new not in {x['name'] for x in spec['species']}:
                ren[s['name']] = new
                s['name'] = s['attrs']['name'] = new
    for s in spec['species']:
        for d in (s.get('ret_coefs'), s['attrs'].get('ret_coefs')):
            if d and any(k in ren for k in d):
                items = [(ren.get(k, k), v) for k, v in d.items()]
                d.clear()
                d.update(items)


def sort_duplicates(m, rng, spec, path, names):
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    ref = XmlBuilder()
    ref.add_chemistry_from_xml(path)
    ref.sort_elements()
    sorted_sp = [x.find('name').text for x in ref.species]
    both = rng.choice(['species', 'reactions', 'both', 'default'])
    b = XmlBuilder()
    b.add_chemistry_from_xml(path)
    for elements, ids, kind in ((b.species, [s['id'] for s in spec['species']], 'species'),
                                (b.reactions, [r['id'] for r in spec['reactions']], 'reactions')):
        if both in (kind, 'both', 'default') and len(elements) > 1:
            for x in elements:
                x.attrib['id'] = '999' if both == 'default' else str(rng.choice(ids))
            if both != 'default':
                elements[0].attrib['id'] = elements[-1].attrib['id']
    before = [x.attrib['id'] for x in b.species], [x.attrib['id'] for x in b.reactions]
    dup = [len(set(x)) < len(x) for x in before]
    b.sort_elements()
    out = m.tmp + '/unique.xml'
    b.dump_xml(out, overwrite=True)
    sp, rs = XmlParser().get_species_and_reactions(out)
    m.check(sorted(x.get_name() for x in sp) == sorted(sorted_sp), 'sorting duplicate ids changed the species')
    by = {s['name']: s for s in spec['species']}
    for x in sp:
        compare_species(m, x, by[x.get_name()], check_id=False)
    got = sorted((str(x), repr(x.get_arrh_a())) for x in rs)
    want = sorted((' > '.join(' + '.join(names[j] for j in r[side]) for side in ('lhs', 'rhs')), repr(r['a'] * r['factor']))
                  for r in spec['reactions'])
    m.check([x[0] for x in got] == [x[0] for x in want], 'sorting duplicate ids changed the reactions',
            lambda: ([x[0] for x in got], [x[0] for x in want]))
    m.check(all(hist.same(float(x[1]), float(y[1])) for x, y in zip(sorted(got, key=lambda v: (v[0], float(v[1]))),
                                                                    sorted(want, key=lambda v: (v[0], float(v[1]))))),
            'sorting duplicate ids mixed the rates')
    m.check(len(set(x.id for x in sp)) == len(sp) and len(set(x.id for x in rs)) == len(rs),
            'ids not unique after sorting', lambda: ([x.id for x in sp], [x.id for x in rs]))
    if dup[0]:
        n, expected = 1, []
        for x in sp:
            expected.append({'e': 0, 'M': 999}.get(x.get_name(), n))
            n += x.get_name() not in ('e', 'M')
        m.check([x.id for x in sp] == expected, 'reassigned species ids', lambda: ([x.id for x in sp], expected))
    if dup[1]:
        m.check([x.id for x in rs] == list(range(1, len(rs) + 1)), 'reassigned reaction ids', lambda: [x.id for x in rs])
    # the order is the one of the scheme: sorting again changes nothing
    again = XmlBuilder()
    again.add_chemistry_from_xml(out)
    again.sort_elements()
    m.check([x.find('name').text for x in again.species] == [x.get_name() for x in sp], 'sorted species sorted again')
    m.check([x.attrib['id'] for x in again.reactions] == [str(x.id) for x in rs], 'sorted reactions sorted again',
            lambda: ([x.attrib['id'] for x in again.reactions], [x.id for x in rs]))
    m.event('duplicate ids sorted')


def own_arguments(m, rng, spec):
    """What is handed to the constructors belongs to the caller."""
    from plaschem.reactions import Reaction
    from plaschem.species import RP
    s, r = rng.choice(spec['species']), rng.choice(spec['reactions'])
    rps = {x['id']: RP(x['id'], attributes=dict(x['attrs']), units=dict(x['units'])) for x in spec['species']}
    for sid, name in ((0, 'e'), (999, 'M')):      # a state of these means nothing
        rp = RP(sid, name=name, mass=.00054, charge=-1 if name == 'e' else 0, state=rng.choice(['*', 'v=1']), stateless=name)
        m.check(rp.get_state() is None and rp.get_stateless() == name, 'state of a special species')
    for make, at, un in ((lambda *a, **k: RP(s['id'], *a, **k), s['attrs'], s['units']),
                         (lambda *a, **k: Reaction(r['id'], [rps[j] for j in r['lhs']], [rps[j] for j in r['rhs']], *a, **k),
                          r['attrs'], r['units'])):
        at, un = dict(at), dict(un)
        keep = dict(at), dict(un)
        first = make(at, un, comments='first')
        second = make(at, un, comments='second')
        third = make(at, un)
        m.check((at, un) == keep, 'attributes handed to a constructor changed', lambda: (at, keep))
        m.check([first.get_comments(), second.get_comments(), third.get_comments()] ==
                ['first', 'second', text(at.get('comments'))], 'objects made of the same attributes')
        at['comments'] = 'changed'
        m.check([first.get_comments(), third.get_comments()] == ['first', text(keep[0].get('comments'))],
                'object follows the attributes it was made of')
        m.event('arguments kept')


def case(m, rng, i):
    from plaschem.chemistry import Chemistry
    from plaschem.exceptions import XmlError
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    spec = gen.gen_spec(rng)
    commas(rng, spec)
    m.note(chemistry=gen.describe(spec))
    path = m.tmp + '/chem.xml'
    own_arguments(m, rng, spec)
    builder = XmlBuilder()
    names = {s['id']: s['name'] for s in spec['species']}
    way = rng.choice(['attributes', 'instances', 'reactions only', 'chemistry'])
    order = True
    if way == 'attributes':
        for s in spec['species']:
            at = dict(s['attrs'])
            if rng.random() < .5:   # split over the two ways to pass attributes
                k = rng.choice([x for x in at if x != 'name'] or ['name'])
                extra = {k: at.pop(k)}
            else:
                extra = {}
            builder.add_rp_from_attributes(s['id'], at, dict(s['units']), **extra)
        m.raises(XmlError, 'the same species added twice', builder.add_rp_from_attributes, 5, dict(spec['species'][0]['attrs']))
        m.raises(XmlError, 'reaction of unknown species added', builder.add_reaction_from_attributes,
                 (spec['species'][0]['name'], 'Zz'), (spec['species'][0]['name'],))
        for r in spec['reactions']:
            builder.add_reaction_from_attributes(tuple(names[j] for j in r['lhs']), tuple(names[j] for j in r['rhs']),
                                                 r['id'], dict(r['attrs']), dict(r['units']))
    elif way == 'chemistry':
        builder.add_chemistry_from_instance(gen.build(spec))
    else:
        species, reactions = gen.build_objects(spec)
        if way == 'instances':
            for rp in species:
                builder.add_rp_from_instance(rp)
        else:
            order = False
        for r in reactions:
            builder.add_reaction_from_instance(r)
    m.note(way=way)
    builder.dump_xml(path)
    content = open(path, 'rb').read()
    species, reactions = XmlParser().get_species_and_reactions(path)
    if order:
        compare(m, spec, species, reactions)
    else:
        compare(m, spec, species, reactions, order=False)
    chem = Chemistry(xml_path=path)
    compare(m, spec, list(chem.get_species(special=True)), list(chem.get_reactions()), order=order)
    m.check(chem.xml_path == path, 'path of the file not kept')
    # existing files
    m.raises(XmlError, 'existing file overwritten', builder.dump_xml, path)
    m.check(open(path, 'rb').read() == content, 'refused overwrite changed the file')
    with open(m.tmp + '/empty.xml', 'w'):
        pass
    m.raises(XmlError, 'existing empty file overwritten', builder.dump_xml, m.tmp + '/empty.xml')
    m.check(os.path.getsize(m.tmp + '/empty.xml') == 0, 'refused overwrite changed an empty file')
    m.raises(XmlError, 'missing file parsed', XmlParser().get_species_and_reactions, m.tmp + '/none.xml')
    # again, through the file: whitespace of the first file must not leak into the second
    second = XmlBuilder()
    second.add_chemistry_from_xml(path)
    second.dump_xml(path, overwrite=True)
    chem2 = Chemistry(xml_path=path)
    compare(m, spec, list(chem2.get_species(special=True)), list(chem2.get_reactions()), order=order)
    # merging the file with itself under other reaction ids: species stay single, reactions double, ids made unique
    if rng.random() < .4:
        merged = XmlBuilder()
        merged.add_chemistry_from_xml(path)
        merged.add_chemistry_from_xml(path)
        merged.assign_ids()
        mpath = m.tmp + '/merged.xml'
        merged.dump_xml(mpath)
        chem3 = Chemistry(xml_path=mpath)
        m.check(sorted(chem3.get_species_name(special=True)) == sorted(names.values()), 'merging changed the species')
        strings = [str(r) for r in chem3.get_reactions()]
        m.check(sorted(strings) == sorted(2 * [str(r) for r in chem2.get_reactions()]), 'merging lost reactions')
        m.check([r.id for r in chem3.get_reactions()] == list(range(1, len(strings) + 1)), 'assigned reaction ids')
        m.event('merged files')
    # sorting and ids
    if rng.random() < .6 and all(len(s['atoms']) <= 3 for s in spec['species']):
        sorter = XmlBuilder()
        sorter.add_chemistry_from_xml(path)
        sorter.sort_elements()
        spath = m.tmp + '/sorted.xml'
        sorter.dump_xml(spath)
        sp, rs = XmlParser().get_species_and_reactions(spath)
        compare(m, spec, sp, rs, order=False)
        sorter.assign_ids()
        sorter.dump_xml(spath, overwrite=True)
        sp2, rs2 = XmlParser().get_species_and_reactions(spath)
        m.check([x.get_name() for x in sp2] == [x.get_name() for x in sp], 'assigning ids changed the order')
        m.check([str(x) for x in rs2] == [str(x) for x in rs], 'assigning ids changed the reactions')
        n, expected = 1, []
        for x in sp2:
            if x.get_name() in ('e', 'M'):
                expected.append({'e': 0, 'M': 999}[x.get_name()])
            else:
                expected.append(n)
                n += 1
        m.check([x.id for x in sp2] == expected, 'assigned species ids', lambda: ([x.id for x in sp2], expected))
        m.check([x.id for x in rs2] == list(range(1, len(rs2) + 1)), 'assigned reaction ids')
        by = {s['name']: s for s in spec['species']}
        for x in sp2:
            compare_species(m, x, by[x.get_name()], check_id=False)
        rby = {r['id']: r for r in spec['reactions']}
        for old, new in zip(rs, rs2):
            compare_reaction(m, new, rby[old.id], names, check_id=False)
        Chemistry(xml_path=spath)
        m.event('sorted files')
    # ids which are not unique: reassigned by sorting, ascending in the order of the sorted file
    if rng.random() < .5 and all(len(s['atoms']) <= 3 for s in spec['species']):
        sort_duplicates(m, rng, spec, path, names)
    if len(spec['reactions']) >= 4:
        m.signature(way, gen.describe(spec))
        m.sample({'way': way, 'chemistry': gen.describe(spec), 'file': content.decode()[:200]})


FOREIGN = r"""
import sys, warnings
warnings.simplefilter('ignore')
from plaschem.chemistry import Chemistry
from plaschem.reactions import Reaction
from plaschem.species import RP
from plaschem.xml_inputs import XmlBuilder
path, text = sys.argv[1], sys.argv[2].encode().decode('unicode_escape')
e = RP(1, attributes={'name': 'e', 'charge': -1, 'mass': .00054})
a, i = (RP(k, attributes={'name': n, 'mass': 40., 'charge': q, 'comments': text}) for k, n, q in ((2, 'Ar', 0), (3, 'Ar+', 1)))
r = Reaction(1, [e, a], [e, e, i], attributes={'arrh_a': 1e-9, 'comments': text}, units={'arrh_a': 'cm3.s-1'})
b = XmlBuilder()
b.add_chemistry_from_instance(Chemistry(species=[e, a, i], reactions=[r]))
b.dump_xml(path)
c = Chemistry(xml_path=path)
assert [c.get_rp(n).get_comments() for n in ('Ar', 'Ar+')] == [text, text], 'comments of species'
assert c.get_reaction(1).get_comments() == text, 'comments of a reaction'
c.dump_chemistry_attributes(path + '.yaml')
assert c.check_coherence(path + '.yaml'), 'incoherent'
c.load_chemistry_attributes(path + '.yaml')
print('fine')
"""


def directed(m):
    """Written where the system does not write in Unicode, read where it does."""
    import subprocess
    import sys
    from harness import core
    from plaschem.chemistry import Chemistry
    for k, text in enumerate(['plain', 'na\xefve \u2013 \u6c2c']):
        for env in ({'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C.UTF-8'}):
            path = os.path.join(m.tmp, 'locale{}{}.xml'.format(k, len(env)))
            out = subprocess.run([sys.executable, '-c', FOREIGN, path, text.encode('unicode_escape').decode()],
                                 cwd=core.REPO, capture_output=True, timeout=120,
                                 env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', **env))
            m.check(out.returncode == 0 and b'fine' in out.stdout, 'chemistry with comments in another locale',
                    lambda: (text, env, out.stderr.decode(errors='replace')[-600:]))
            m.check(Chemistry(xml_path=path).get_rp('Ar').get_comments() == text, 'comments of another locale', text)
            m.event('locales')
