"""Import of HPEM input files."""
from harness import gen, hist

RULE = ('random chemistry over single-letter elements written as an HPEM .dat file with random spacing, number formats, '
        'comments, special numbers and unused species; imported, dumped, parsed and compared; '
        'non-trivial: at least 3 reactions imported')
QUICK, THOROUGH = 900, 6000
MIN_EVENTS = {'files imported': 70, 'reactions imported': 400, 'reactions skipped': 60, 'species skipped': 30,
              'chemistries built': 15}

UPPER = {f for f in gen.FORMULAE if not any(c.islower() for c in f)}


def fmt(rng, x):
    if x is None:
        x = 0.
    k = rng.randrange(4)
    if k == 0 and float(x) == int(x) and abs(x) < 1e9:
        return str(int(x))
    if k == 1:
        return '{:.10E}'.format(x)
    if k == 2:
        return '{:.10e}'.format(x)
    return repr(float(x))


def ws(rng):
    return ' ' * rng.choice([0, 1, 1, 2, 5]) if rng.random() < .9 else '\t'


def ws1(rng):
    return ws(rng) or ' '


def case(m, rng, i):
    from plaschem.chemistry import Chemistry
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    spec = gen.gen_spec(rng, with_m=False, states=False, elements=rng.sample(['H', 'N', 'O', 'C', 'F', 'S'], rng.choice([1, 2, 2, 3])))
    if not all(s['form'] is None or s['form'] in UPPER for s in spec['species']):
        return
    m.note(chemistry=gen.describe(spec))
    sp = {s['id']: s for s in spec['species']}
    for s in spec['species']:
        s['hpem'] = 'E' if s['name'] == 'e' else s['name'].replace('+', '^')
        s['comment'] = rng.choice(['', 'x', 'mass from a > b table', 'see (1); [2] & 3'])
        s['file_stick'] = rng.choice([0., 0., 1., round(rng.random(), 4)]) if s['form'] else 0.
        s['file_ret'] = rng.choice([1., .5, 0.25, 0.])
        s['file_ret_sp'] = rng.choice([x for x in spec['species'] if x['form']])
    for r in spec['reactions']:
        r['special'] = rng.choice([1, 1, -1, -1, -1, 10, 20, -1003, 0])
        r['heat'] = rng.choice([0., round(rng.uniform(-2, 3), 4)])
        r['comment'] = rng.choice(['', 'made up', 'ref. [3] & more', 'if T > 300 K', 'Žižka'])
    skip = rng.random() < .7
    lines = []
    order = list(spec['species'])
    rng.shuffle(order)
    for s in order:
        w = lambda: ws(rng)
        lines.append('{}{n}{}:{}{q}{}; {m}{}&{}{st}{} ]{}{z}{}[{}{rc}{}@{}{rs}{}!{c}'.format(
            w(), ws1(rng), w(), ws1(rng), w(), w(), w(), w(), w(), ws1(rng), w(), w(), w(), ws1(rng),
            n=s['hpem'], q=s['q'], m=fmt(rng, s['mass']), st=fmt(rng, s['file_stick']), z=rng.randint(0, 3),
            rc=fmt(rng, s['file_ret']), rs=s['file_ret_sp']['hpem'], c=s['comment']))
    lines.append(rng.choice(['*', ' *  ']))
    for r in spec['reactions']:
        w = lambda: ws(rng)
        lines.append('{}{l}{} > {}{r}{} :{}{a}{}; {b}{}&{}{c}{} ]{}{h}{}[{}{s}{} !{}{com}'.format(
            w(), w(), w(), w(), w(), ws1(rng), w(), w(), w(), w(), w(), ws1(rng), w(), w(), w(),
            l=' + '.join(sp[j]['hpem'] for j in r['lhs']), r=' + '.join(sp[j]['hpem'] for j in r['rhs']),
            a=fmt(rng, r['a']), b=fmt(rng, r['b']), c=fmt(rng, r['c']), h=fmt(rng, r['heat']), s=r['special'],
            com=r['comment']))
    path = m.tmp + '/hpem.dat'
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + rng.choice(['', '\n']))
    m.note(file=lines, skip=skip)
    kept = [r for r in spec['reactions'] if not skip or r['special'] in (1, -1)]
    present = {j for r in kept for j in r['lhs'] + r['rhs']}
    m.event('reactions skipped', len(spec['reactions']) - len(kept))
    m.event('species skipped', len(sp) - len(present))
    m.event('reactions imported', len(kept))
    if not kept:
        return
    b = XmlBuilder()
    if skip and rng.random() < .5:
        b.add_chemistry_from_hpem(path)
    else:
        b.add_chemistry_from_hpem(path, skip_special_numbers=skip)
    m.event('files imported')
    b.assign_ids()
    out = m.tmp + '/out.xml'
    b.dump_xml(out)
    species, reactions = XmlParser().get_species_and_reactions(out)
    exp = [s for s in order if s['id'] in present]
    m.check([x.get_name() for x in species] == [s['name'] for s in exp], 'imported species',
            lambda: ([x.get_name() for x in species], [s['name'] for s in exp]))
    for x, s in zip(species, exp):
        m.check(x.get_charge() == s['q'], 'charge', lambda: (str(x), x.get_charge(), s['q']))
        m.check(hist.same(float(s['mass']), x.get_mass()) or abs(x.get_mass() - s['mass']) < 1e-9 * s['mass'], 'mass',
                lambda: (str(x), x.get_mass(), s['mass']))
        if s['form']:
            m.check(x.get_stick_coef() == s['file_stick'], 'sticking coefficient',
                    lambda: (str(x), x.get_stick_coef(), s['file_stick']))
            if s['file_stick']:
                m.event('nothing returned', not s['file_ret'])
                m.check({k: v for k, v in x.get_ret_coefs().items() if v} ==
                        {k: v for k, v in {s['file_ret_sp']['name']: s['file_ret']}.items() if v}, 'return coefficient',
                        lambda: (str(x), x.get_ret_coefs(), s['file_ret_sp']['name'], s['file_ret']))
        m.check(x.get_comments() == (s['comment'].strip() or None), 'comments of a species', lambda: (x.get_comments(), s['comment']))
    m.check([([x.get_name() for x in r.get_reactants()], [x.get_name() for x in r.get_products()]) for r in reactions] ==
            [([sp[j]['name'] for j in r['lhs']], [sp[j]['name'] for j in r['rhs']]) for r in kept], 'imported reactions',
            lambda: ([str(r) for r in reactions]))
    close = lambda a, b: abs(a - b) <= 1e-9 * abs(b)
    for x, r in zip(reactions, kept):
        fac = {1: 1., 2: 1e-6, 3: 1e-12}[len(r['lhs'])]
        m.check(close(x.get_arrh_a(), r['a'] * fac), 'arrhenius A of the file is per cm',
                lambda: (str(x), x.get_arrh_a(), r['a'], fac))
        m.check(close(x.get_arrh_b() or 0., r['b']) and close(x.get_arrh_c() or 0., r['c']), 'arrhenius parameters',
                lambda: (str(x), x.get_arrh_b(), r['b'], x.get_arrh_c(), r['c']))
        m.check(x.get_unit('arrh_c') == ('eV' if r['electron'] else 'K'), 'unit of the activation energy', str(x))
        m.check(close(x.get_gas_heat_contrib(), r['heat']), 'gas heating', lambda: (str(x), r['heat']))
        m.check(x.get_special_number() == r['special'], 'special number', lambda: (str(x), x.get_special_number()))
        m.check(x.get_comments() == (r['comment'].strip() or None), 'comments of a reaction',
                lambda: (r['comment'], x.get_comments()))
    if {s['file_ret_sp']['id'] for s in exp if s['file_stick']} <= present and any(s['q'] > 0 for s in exp) and \
            any(s['name'] == 'e' for s in exp) and \
            all(s['file_stick'] or s['q'] == 0 for s in exp if s['form']):
        ch = Chemistry(xml_path=out)
        m.check(list(ch.get_species_name(special=True)) == [s['name'] for s in exp], 'chemistry of the imported file')
        m.event('chemistries built')
    if len(kept) >= 3:
        m.signature(lines)
        m.sample(lines[:6])
