"""Listings of a chemistry: classified, sorted, coloured, printed."""
import contextlib
import io
import re

import numpy as np

from harness import gen, hist
from harness.checks import p10
from harness.checks.p32 import color

RULE = ('random chemistry driven through a random history of disabling and ad-hoc changes; its reactions listed classified, '
        'sorted or as they are, with and without disabled ones, units, colours and attributes left out; rows, headings, '
        'cells and the printed text compared with the spec, the documented scheme and the plain getters; non-trivial: at '
        'least 3 categories listed')
QUICK, THOROUGH = 320, 6000
MIN_EVENTS = {'listings': 300, 'classified': 150, 'sorted': 100, 'rows of reactions': 1500, 'headings': 300,
              'red rows': 60, 'printed lines': 1500, 'ad-hoc values listed': 30, 'species listings': 150,
              'attributes left out': 60, 'cells': 10000}
ANSI = re.compile('\x1b\\[[0-9;]*m')
YELLOW, MAGENTA = '\x1b[33m', '\x1b[35m'


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        r = fn(*a, **k)
    return r, out.getvalue()


def missing(v):
    return v is None or isinstance(v, (float, np.floating)) and v != v


def same(a, b):
    return missing(a) and missing(b) or a == b


def unwrap(df):
    """(ids, columns, values, colours) of a listing, coloured or not."""
    wrapped = len(df.columns) and hasattr(df.columns[0], 'value')
    cols = [c.value if wrapped else c for c in df.columns]
    vals = [[df.iat[a, b].value if wrapped else df.iat[a, b] for b in range(len(cols))] for a in range(len(df.index))]
    colours = [[df.iat[a, b].color if wrapped else None for b in range(len(cols))] for a in range(len(df.index))]
    return list(df.index), cols, vals, colours, wrapped


def tokens(side):
    return [x for x in side.split() if x != '+']


def reactions_listing(m, rng, chem, ref):
    dis = rng.random() < .6
    ignored = rng.choice([('latex',), ('latex',), ('latex', 'comments', 'doi'), ('latex', 'arrh_a', 'elastic', 'comments')])
    kw = dict(disabled=dis, units=rng.random() < .5, sort=rng.random() < .5, classify=rng.random() < .7,
              pretty_print=rng.random() < .6, printout=rng.random() < .6)
    if len(ignored) > 1 or rng.random() < .3:
        kw['ignored'] = rng.choice([tuple, list])(ignored)
        m.event('attributes left out')
    m.note(listing=kw)
    ids = ref.reaction_ids(dis)
    df, text = quiet(chem.reactions_attributes, **kw)
    m.event('listings')
    rows, cols, vals, colours, wrapped = unwrap(df)
    m.check(bool(wrapped) == kw['pretty_print'], 'colours')
    plain = [k for k in rows if not isinstance(k, str)]
    m.check(sorted(plain) == sorted(ids), 'reactions of the listing', (rows, ids))
    base, _ = quiet(chem.reactions_attributes, disabled=dis, units=kw['units'], printout=False, pretty_print=False,
                    ignored=ignored)
    m.check(cols == list(base.columns), 'columns of the listing', (cols, list(base.columns)))
    m.check(list(base.index) == ids, 'order of a plain listing')
    m.check(cols[0] == 'string' and not set(cols) & set(ignored), 'attributes left out are there', cols)
    objs = chem.get_reactions(disabled=True)
    # categories
    heads, under = [], {}
    for k in rows:
        if isinstance(k, str):
            heads.append(k)
        else:
            under[k] = list(heads[-2:] if heads and '.' in heads[-1] else heads[-1:])
    if kw['classify']:
        from plaschem.classification import ReactionClassifier
        m.event('classified')
        scheme = [(t, list(c)) for t, c in ReactionClassifier.classification_scheme]
        name = {}
        for k, v in zip(rows, vals):
            if isinstance(k, str):
                m.event('headings')
                name[k] = v[0].strip()
                m.check(all(x == '' for x in v[1:]), 'values in a heading', (k, v))
        m.check(len(set(heads)) == len(heads), 'heading repeated', heads)
        top = [k for k in heads if '.' not in k]
        m.check(top == ['(C{})'.format(j + 1) for j in range(len(top))], 'numbers of the types', heads)
        order = [t for t, _ in scheme]
        at_type = [order.index(name[k]) if name[k] in order else -1 for k in top]
        m.check(-1 not in at_type and at_type == sorted(set(at_type)), 'types of the listing', name)
        where = p10.where(ReactionClassifier(list(chem.get_species(disabled=True, special=True)),
                                             [objs[k] for k in ids]).get_classified_reactions())
        current, cat, cats, cat_no = None, None, [], {}
        for k, v in zip(rows, vals):
            if isinstance(k, str) and '.' not in k:
                current, cat = name[k], None
                m.check(k not in cat_no, 'type repeated', rows)
                number, cats = k[2:-1], []
            elif isinstance(k, str):
                m.check(k.startswith('(C{}.'.format(number)), 'category under another type', rows)
                cat = name[k]
                sch = dict(scheme)[current]
                m.check(cat in sch and (not cats or sch.index(cats[-1]) < sch.index(cat)), 'categories of the listing',
                        (current, cats, cat))
                cats.append(cat)
                cat_no[current, cat] = k
            else:
                t, c = where[k][0]
                m.check((t, c) == (current, cat or 'None'), 'reaction listed under another category',
                        lambda: (str(objs[k]), (t, c), (current, cat)))
                exp = p10.expected_type([ref.sp[j] for j in ref.r[k]['lhs']], [ref.sp[j] for j in ref.r[k]['rhs']])
                m.check(exp is None or exp == current, 'reaction listed under another type',
                        lambda: (str(objs[k]), exp, current))
        # every heading is followed by something of its own
        for a, k in enumerate(rows):
            if isinstance(k, str):
                nxt = rows[a + 1] if a + 1 < len(rows) else None
                m.check(nxt is not None and (not isinstance(nxt, str) or '.' not in k and '.' in nxt), 'empty heading',
                        rows)
        if len(cat_no) >= 3:
            m.signature(gen.describe(ref.spec), kw, rows)
        used = len({(tuple(under[k])) for k in plain})
        m.event('categories listed', used)
    else:
        m.check(not heads, 'headings without a classification')
        if not kw['sort']:
            m.check(rows == ids, 'order of a listing', (rows, ids))
            m.signature(gen.describe(ref.spec), kw, rows) if len(ids) > 3 else None
    if kw['sort']:
        from plaschem.classification import ReactionClassifier
        m.event('sorted')
        clf = ReactionClassifier(list(chem.get_species(disabled=dis, special=True)), [])
        clf.sort_species()
        pos = {s.id: j for j, s in enumerate(clf.species)}
        key = {k: (sorted(pos[j] for j in ref.r[k]['lhs']), sorted(pos[j] for j in ref.r[k]['rhs'])) for k in ids}
        run, last = [], None
        for k in rows:
            if isinstance(k, str):
                run = []
            else:
                run.append(key[k])
                m.check(run[-1] == max(run), 'reactions of a sorted listing out of order', rows)
    elif kw['classify']:
        run = []
        for k in rows:
            if isinstance(k, str):
                run = []
            else:
                run.append(ids.index(k))
                m.check(run == sorted(run), 'reactions of a category not in the order of the chemistry', rows)
    # values
    lens = {}
    for k, v, col in zip(rows, vals, colours):
        if isinstance(k, str):
            if wrapped:
                want = YELLOW if '.' not in k else MAGENTA
                m.check(col[0] == want, 'colour of a heading', (k, repr(col[0])))
            continue
        m.event('rows of reactions')
        r = ref.r[k]
        lhs, sep, rhs = v[0].partition(' > ')
        names = [[ref.sp[j]['name'] for j in r[s]] for s in ('lhs', 'rhs')]
        m.check(sep and [sorted(tokens(lhs)), sorted(tokens(rhs))] == [sorted(x) for x in names],
                'string of another reaction', (k, v[0], names))
        if kw['classify']:
            lens.setdefault(tuple(under[k]), set()).add(lhs and len(lhs))
        for b, cname in enumerate(cols[1:], 1):
            m.event('cells')
            want = base.at[k, cname]
            if wrapped and missing(want):
                m.check(v[b] == '...', 'missing value of a listing', (k, cname, v[b]))
            else:
                m.check(same(v[b], want), 'value of a listing', (k, cname, v[b], want))
        if wrapped:
            red = k not in ref.en_r
            m.event('red rows', int(red))
            m.check(all((c == '\x1b[31m') == red for c in col), 'disabled reactions are the red ones', (k, col))
        # against the spec, not against another listing
        if 'arrh_a' in cols:
            m.check(hist.same(ref.arrh_a(k) / r['factor'], float(v[cols.index('arrh_a')])) or
                    abs(float(v[cols.index('arrh_a')]) * r['factor'] - ref.arrh_a(k)) <= 1e-12 * abs(ref.arrh_a(k)),
                    'arrh_a of a listing', (k, v[cols.index('arrh_a')], ref.arrh_a(k)))
            if k in ref.adhoc_a:
                m.event('ad-hoc values listed')
            if '[arrh_a]' in cols:
                m.check(v[cols.index('[arrh_a]')] == r['unit'], 'unit of arrh_a in a listing', (k, v))
        for cname, val in (('arrh_b', r['b']), ('arrh_c', r['c']), ('el_en_loss', r['el_en_loss']),
                           ('gas_heat_contrib', r['gas_heat_contrib']), ('elastic', r['elastic'])):
            if cname in cols:
                m.check(v[cols.index(cname)] == val, 'value of a listing', (k, cname, v[cols.index(cname)], val))
    m.check(all(len(x) == 1 for x in lens.values()), 'arrows of a category not aligned', lambda: (lens, [v[0] for v in vals]))
    # printed text
    if kw['printout']:
        lines = [ANSI.sub('', x) for x in text.split('\n')]
        body = [x for x in lines if x.strip()][1:]
        m.check(len(body) == len(rows), 'number of printed lines', (len(body), len(rows)))
        squeeze = lambda x: ' '.join(str(x).split())
        for k, v, line in zip(rows, vals, body):
            m.event('printed lines')
            m.check(squeeze(line).startswith(squeeze('{} {}'.format(k, v[0]))), 'printed line', (line, k, v[0]))
    else:
        m.check(text == '', 'printed without being asked', text)


def species_listing(m, rng, chem, ref):
    dis, spec_ = rng.random() < .6, rng.random() < .6
    kw = dict(disabled=dis, special=spec_, units=rng.random() < .5, sort=rng.random() < .4,
              pretty_print=rng.random() < .5, printout=rng.random() < .6)
    m.note(listing=kw)
    ids = ref.species_ids(dis, spec_)
    df, text = quiet(chem.species_attributes, **kw)
    m.event('species listings')
    rows, cols, vals, colours, wrapped = unwrap(df)
    m.check(sorted(rows) == sorted(ids), 'species of the listing', (rows, ids))
    if not kw['sort']:
        m.check(rows == ids, 'order of the species', (rows, ids))
    else:
        objs = chem.get_species(disabled=True, special=True)
        keys = [p10.sp_key(ref.sp[k], list(objs[k].get_atoms()) if ref.sp[k]['name'] != 'M' else []) for k in rows]
        m.check(keys == sorted(keys), 'species of a sorted listing out of order', [ref.sp[k]['name'] for k in rows])
    for k, v, col in zip(rows, vals, colours):
        s = ref.sp[k]
        get = dict(zip(cols, v))
        m.check(get['name'] == s['name'], 'name in a listing', (k, get['name']))
        if wrapped:
            m.check(all((c == '\x1b[31m') == (k not in ref.en_sp) for c in col), 'disabled species are the red ones', k)
        if s['form']:
            m.check(abs(float(get['mass']) - s['mass']) <= 1e-12 * s['mass'] and int(get['charge']) == s['q'],
                    'mass or charge in a listing', (k, get))
            m.check(float(get['stick_coef']) == float(ref.stick(k)), 'sticking coefficient in a listing',
                    (k, get['stick_coef'], ref.stick(k)))
            m.check(hist.same(get['ret_coefs'], ref.ret(k)), 'return coefficients in a listing',
                    (k, get['ret_coefs'], ref.ret(k)))
            for a in ('h_form', 'lj_epsilon', 'lj_sigma'):
                m.check(float(get[a]) == s[a], a + ' in a listing', (k, get[a], s[a]))
            m.event('cells', 7)
    if kw['printout']:
        body = [ANSI.sub('', x) for x in text.split('\n') if x.strip()][1:]
        m.check(len(body) == len(rows), 'number of printed lines', (len(body), len(rows)))
        for k, v, line in zip(rows, vals, body):
            m.event('printed lines')
            m.check(line.split()[0] == str(k) and ref.sp[k]['name'] in line, 'printed line', (line, k))
    else:
        m.check(text == '', 'printed without being asked', text)


def case(m, rng, i):
    spec = gen.gen_spec(rng)
    by = {s['id']: s['name'] for s in spec['species']}
    if any({by[j] for j in r['lhs']} <= {'e'} or {by[j] for j in r['rhs']} <= {'e'} for r in spec['reactions']):
        return
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    for _ in range(3):
        h.random_state(rng.randint(0, 4))
        before = chem.get_reactions(disabled=True).index.tolist(), sorted(chem.get_species().index)
        for _ in range(2):
            reactions_listing(m, rng, chem, h.ref)
        species_listing(m, rng, chem, h.ref)
        m.check((chem.get_reactions(disabled=True).index.tolist(), sorted(chem.get_species().index)) == before,
                'a listing changed the chemistry')
