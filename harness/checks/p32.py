"""Printed and typeset representations show the values, and what is disabled."""
import contextlib
import io
import math
import re

import numpy as np
import pandas as pd

from harness import gen, hist

RULE = ('random chemistry driven through a random history; stoichiometric, return and rate-like matrices pretty-printed '
        'with and without annotations, attribute tables, LaTeX of every species, reaction and rate coefficient, and LaTeX '
        'tables; everything shown is parsed back and compared with the specification, colours with the state; '
        'non-trivial: something disabled and at least 3 reactions')
QUICK, THOROUGH = 400, 9000
CASE_LIMIT = 60
MIN_EVENTS = {'cells': 40000, 'red cells': 3000, 'blue cells': 5000, 'species typeset': 700, 'reactions typeset': 1100,
              'rate coefficients typeset': 4500, 'table lines': 1000, 'ambiguous ids': 14, 'annotated': 170,
              'without annotations': 170, 'species with the same LaTeX': 100}


def plain(latex):
    """The text of a formula in LaTeX."""
    s = re.sub(r'\^\{(\d)([+-])\}', lambda g: int(g[1]) * g[2], latex)
    for _ in range(3):
        s = re.sub(r'\\mathrm\{([^{}]*)\}', r'\1', s)
        s = re.sub(r'[_^]\{([^{}]*)\}', r'\1', s)
    return re.sub(r'[\s_^]', '', s)


def parse_rate(tex):
    """(value at Te (eV) and Tg (K)) of a typeset rate coefficient."""
    def dfrac(s):
        prev = None
        while prev != s:
            prev = s
            s = re.sub(r'\\dfrac\{([^{}]*)\}\{([^{}]*)\}', r'((\1)/(\2))', s)
        return s
    s = tex.replace(r'T_\mathrm{e}', ' TE ').replace(r'\mathrm{T_g}', ' TG ')
    s = re.sub(r'\\times 10\^\{(-?\d+)\}', r'*10.**(\1)', s)
    s = dfrac(s)
    s = s.replace(r'\left(', '(').replace(r'\right)', ')').replace(r'\exp', 'EXP')
    s = re.sub(r'\^\{([^{}]*)\}', r'**(\1)', s)
    tokens = re.findall(r'\d+\.?\d*(?:e[+-]?\d+)?|\*\*|[()*/+-]|TE|TG|EXP|\S', s)
    out = []
    for k, t in enumerate(tokens):
        if k and (t in ('TE', 'TG', 'EXP') or t == '(') and (out[-1] in ('TE', 'TG', ')') or out[-1][0].isdigit()):
            out.append('*')
        out.append(t)
    code = ''.join(out)

    def f(te, tg):
        return eval(code, {'__builtins__': {}}, {'TE': te, 'TG': tg, 'EXP': math.exp})
    return f, code


def color(cell):
    import colorama
    return {colorama.Fore.RED: 'red', colorama.Fore.BLUE: 'blue', colorama.Fore.RESET: None}.get(cell.color, cell.color)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        r = fn(*a, **k)
    return r, out.getvalue()


def matrices(m, rng, chem, ref):
    from plaschem.pretty_print import PrettyPrint
    pp = PrettyPrint(chem)
    for _ in range(3):
        kind = rng.choice(['stoich', 'stoich', 'return', 'transposed', 'part'])
        dis, spec_ = rng.random() < .7, rng.random() < .5
        if kind == 'return':
            df = chem.get_return_matrix(disabled=dis)
            rows, cols = 'species', 'species'
        else:
            df = chem.get_stoichiomatrix(disabled=dis, special=spec_, method=rng.choice(['lhs', 'rhs', 'net']))
            rows, cols = 'reactions', 'species'
            if kind == 'part':
                df = df.loc[rng.sample(list(df.index), rng.randint(1, len(df.index)))]
            elif kind == 'transposed' and not set(ref.by_name.values()) & set(ref.rorder):
                df = df.T
                rows, cols = 'species', 'reactions'
        if set(df.index) <= set(ref.order) and rows == 'reactions':
            if list(df.index) == list(df.columns):
                continue
            m.event('ambiguous ids')
        if rows == 'species' and set(df.columns) <= set(ref.rorder) and cols == 'reactions' and \
                set(df.columns) <= set(ref.order):
            continue
        keep = df.copy()
        ann = rng.random() < .5
        shown, text = quiet(pp.print, df, annotation=ann)
        m.check(df.equals(keep) and list(df.columns) == list(keep.columns), 'printing changed the matrix')
        m.event('annotated' if ann else 'without annotations')
        label = {'species': lambda k: ref.sp[k]['name'], 'reactions': None}
        k = int(ann)
        m.check(shown.shape == (df.shape[0] + k, df.shape[1] + k), 'shape of a pretty matrix', (shown.shape, df.shape))
        m.check(list(shown.index)[k:] == list(df.index) and [c.value for c in shown.columns][k:] == list(df.columns),
                'ids of a pretty matrix', lambda: (list(shown.index), [str(c.value) for c in shown.columns]))
        on = {'species': ref.en_sp, 'reactions': ref.en_r}
        for a, i in enumerate(df.index):
            for b, c in enumerate(df.columns):
                cell = shown.iat[a + k, b + k]
                want = None if i in on[rows] and c in on[cols] else 'red'
                m.event('cells')
                if want:
                    m.event('red cells')
                m.check(cell.value == df.at[i, c], 'value in a pretty matrix', (kind, i, c, cell.value, df.at[i, c]))
                m.check(color(cell) == want, 'colour in a pretty matrix', (kind, i, c, cell.color, want))
        if ann:
            for a, i in enumerate(df.index):
                want = ref.sp[i]['name'] if rows == 'species' else str(chem.get_reactions(disabled=True)[i])
                cell = shown.iat[a + 1, 0]
                m.check(cell.value == want and color(cell) == (None if i in on[rows] else 'red'), 'row label',
                        (kind, i, str(cell.value)))
            for b, c in enumerate(df.columns):
                want = ref.sp[c]['name'] if cols == 'species' else str(chem.get_reactions(disabled=True)[c])
                cell = shown.iat[0, b + 1]
                m.check(cell.value == want and color(cell) == (None if c in on[cols] else 'red'), 'column label',
                        (kind, c, cell.value, cell.color, want, c in on[cols]))


def tables(m, rng, chem, ref):
    dis, spec_ = rng.random() < .7, rng.random() < .5
    for kind in ('species', 'reactions'):
        kw = {'disabled': dis, 'units': rng.random() < .5, 'sort': rng.random() < .3}
        if kind == 'species':
            kw['special'] = spec_
        fn = getattr(chem, kind + '_attributes')
        base, _ = quiet(fn, printout=False, pretty_print=False, **kw)
        shown, text = quiet(fn, printout=rng.random() < .3, pretty_print=True, **kw)
        m.check(list(shown.index) == list(base.index) and [c.value for c in shown.columns] == list(base.columns),
                'layout of an attribute table')
        enabled = ref.en_sp if kind == 'species' else ref.en_r
        adhoc = {'stick_coef': ref.adhoc_stick, 'ret_coefs': ref.adhoc_ret, 'arrh_a': ref.adhoc_a}
        for i in base.index:
            given = (ref.sp if kind == 'species' else ref.r)[i]['attrs']
            for b, c in enumerate(base.columns):
                cell, v = shown.at[i, shown.columns[b]], base.at[i, c]
                none = v is None or isinstance(v, (float, np.floating)) and v != v
                m.event('cells')
                m.check(cell.value == ('...' if none else v), 'value in an attribute table',
                        (kind, i, c, str(cell.value), str(v)))
                got = color(cell)
                if i not in enabled:
                    m.event('red cells')
                    m.check(got == 'red', 'disabled but not red', (kind, i, c))
                    continue
                m.check(got in (None, 'blue'), 'enabled but red', (kind, i, c, got))
                if c == 'string' or c.startswith('[') or c == 'ret_coefs':
                    continue
                changed = i in adhoc.get(c, {})
                if c not in given and not none and not changed:
                    m.event('blue cells')
                    m.check(got == 'blue', 'default value not in blue', (kind, i, c, str(v)))
                elif c in given and changed and float(given[c]) != float(adhoc[c][i]):
                    m.event('blue cells')
                    m.check(got == 'blue', 'ad-hoc value not in blue', (kind, i, c, str(v)))
                elif c in given and not changed:
                    m.check(got is None, 'given value in blue', (kind, i, c, str(v), given[c]))


def case(m, rng, i):
    from plaschem.latex import Texify, TexTable, ReactionsTable
    spec = gen.gen_spec(rng)
    for r in spec['reactions']:
        if rng.random() < .1:
            r['a'] = rng.choice([1., 10., .1, round(rng.uniform(.01, 99), 3)])
            r['attrs']['arrh_a'] = gen.num(rng, r['a'])
        if not r['electron'] and rng.random() < .1:
            r['c'] = 1.
            r['attrs']['arrh_c'] = gen.num(rng, 1.)
            r['units']['arrh_c'] = 'K'
    m.note(chemistry=gen.describe(spec))
    same = None
    if rng.random() < .3:       # two species typeset the same on purpose
        r = rng.choice(spec['reactions'])
        heavy = [s for s in dict.fromkeys(r['lhs'] if rng.random() < .5 else r['rhs'])]
        if len(heavy) > 1:
            same = heavy[:2]
            for s in spec['species']:
                if s['id'] in same:
                    s['attrs']['latex'] = r'\mathrm{X}'
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    h.random_state(rng.choice([0, 1, 2, 3]))
    ref = h.ref
    matrices(m, rng, chem, ref)
    tables(m, rng, chem, ref)
    tex = {}
    for s in chem.get_species(disabled=True, special=True):
        name = ref.sp[s.id]['name']
        tex[s.id] = s.get_latex()
        if same and s.id in same:
            m.check(tex[s.id] == r'\mathrm{X}', 'given LaTeX of a species')
            continue
        m.check(plain(tex[s.id]) == name, 'LaTeX of a species', (name, tex[s.id], plain(tex[s.id])))
        m.check(tex[s.id].count('{') == tex[s.id].count('}'), 'braces', tex[s.id])
        m.event('species typeset')
    for r in chem.get_reactions(disabled=True):
        rr = ref.r[r.id]
        sides = r.get_latex().split(r' \rightarrow ')
        m.check(len(sides) == 2, 'LaTeX of a reaction', r.get_latex())
        for side, ids in zip(sides, (rr['lhs'], rr['rhs'])):
            want = sorted((str(ids.count(k)) + ' ' if ids.count(k) > 1 else '') + tex[k] for k in set(ids))
            m.check(sorted(side.split(' + ')) == want, 'LaTeX of a reaction', (side, want))
            if same and set(same) <= set(ids):
                m.event('species with the same LaTeX')
        m.event('reactions typeset')
        for si in (True, False):
            for frac in ('/', 'dfrac'):
                t = Texify.texify_rate_coefficient(r, si_units=si, fractype=frac)
                f, code = parse_rate(t)
                m.check((r'\exp' in t) == (rr['c'] != 0) and ('T_' in t) == (rr['b'] != 0 or rr['c'] != 0),
                        'factors of a typeset rate coefficient', lambda: (t, rr['b'], rr['c']))
                a = rr['a'] * (rr['factor'] if si else 1.)
                te, tg = rng.uniform(.5, 10), rng.uniform(250, 1500)
                a_sh = float('{:.2e}'.format(a))
                temp = te if rr['electron'] else tg / 300
                want = a_sh * temp ** round(rr['b'], 2) * math.exp(
                    -math.copysign(round(abs(rr['c']), 2), rr['c']) / (te if rr['electron'] else tg))
                got = f(te, tg)
                m.event('rate coefficients typeset')
                m.check(abs(got - want) <= 1e-9 * abs(want), 'typeset rate coefficient',
                        lambda: (t, code, got, want, a, rr['b'], rr['c']))
    for _ in range(6):          # numbers as they are written by str and format
        x = rng.choice([1., -1.]) * round(rng.uniform(0, 10), rng.randint(0, 4)) * 10. ** rng.randint(-30, 30)
        t = rng.choice([str, repr, '{:.2f}'.format, '{:.3e}'.format, lambda x: str(int(x))])(x)
        m.event('numbers shortened')
        m.check(float(Texify.strip_zeros(t)) == float(t) and len(Texify.strip_zeros(t)) <= len(t), 'shortened number',
                lambda: (t, Texify.strip_zeros(t)))
    # tables
    cols = ['ID', 'Reaction', '$k$', r'$\Delta E_\mathrm{e}$', 'Source']
    some = rng.sample(cols, rng.randint(1, 5))
    table = ReactionsTable(chem, columns=some) if rng.random() < .7 else ReactionsTable(chem)
    some = some if list(table.dataframe.columns) == some else cols
    df = table.dataframe
    m.check(list(df.columns) == some and list(df.index) == ref.reaction_ids(), 'layout of a table of reactions')
    chem_r = chem.get_reactions()
    for rid in df.index:
        rr = ref.r[rid]
        loss = round(rr['el_en_loss'], 2)
        want = {'ID': str(rid), 'Reaction': '${}$'.format(chem_r[rid].get_latex()),
                '$k$': '${}$'.format(Texify.texify_rate_coefficient(chem_r[rid])),
                'Source': str(rr['attrs'].get('doi'))}
        for c in some:
            if c == cols[3]:
                v = df.at[rid, c]
                m.check(float(v) == loss if rr['el_en_loss'] else v == '', 'energy loss in a table', (v, loss))
            else:
                m.check(df.at[rid, c] == want[c], 'cell of a table of reactions', (c, df.at[rid, c], want[c]))
    other = TexTable('table')
    other.load_dataframe(df)
    for table, kind in ((table, 'longtable'), (other, 'table')):
        notes = {}
        cells = {(rid, c): df.at[rid, c] for rid in df.index for c in some}
        table.add_caption('About reactions')
        table.add_label('tab:x')
        for k in range(rng.randint(0, 4)):
            sup = rng.choice(['b', 'a', '1', 'x'])
            notes[sup] = 'Note {} of {}'.format(k, sup)
            table.add_note(sup, notes[sup])
        marks = {}
        for _ in range(rng.randint(0, 5)):
            sups = rng.sample(['b', 'a', '1', 'x'], rng.randint(1, 3))
            cell = rng.choice(list(df.index)), rng.choice(some)
            if rng.random() < .8:
                table.add_decorator(*cell, TexTable.get_note_decorator(sups))
                marks[cell] = r'{} $^\mathrm{{{}}}$'.format(cells[cell], ','.join(sups))
            else:
                table.add_decorator(*cell, lambda text: r'\emph{' + text + '}')
                marks[cell] = r'\emph{' + cells[cell] + '}'
            m.event('decorated cells')
        cells.update(marks)
        text = str(table)
        lines = [line.strip() for line in text.split('\n')]
        body = [(' & '.join(cells[rid, c] for c in some) + r' \\').strip() for rid in df.index]
        if kind == 'longtable':
            end = lines.index(r'\end{longtable}')
            got = lines[end - len(df):end]
            head = ' & '.join(r'\multicolumn{{1}}{{l}}{{\textbf{{{}}}}}'.format(c) for c in some) + r' \\'
            m.check(lines.count(head) == 2, 'head of a table', text)
        else:
            end = lines.index(r'\end{tabular}') - 3
            got = lines[end - len(df):end]
            head = ' & '.join(r'\textbf{{{}}}'.format(c) for c in some) + r' \\'
            m.check(lines.count(head) == 1, 'head of a table', text)
        m.check(got == body, 'lines of a table', lambda: (got, body))
        m.event('table lines', len(body))
        k = lines.index(r'\caption{')
        caption = lines[k + 1:lines.index('}', k)]
        m.check(caption == [r'About reactions \\'] + [r'$^\mathrm{{{}}}$ {} \\'.format(*x) for x in notes.items()],
                'caption and notes of a table', lambda: (caption, notes))
        m.check(text.count(r'\begin{') == text.count(r'\end{') and text.count(r'\label{tab:x}') == 1, 'frame of a table')
    if len(ref.en_sp) < len(ref.order) and len(ref.order) >= 3:
        m.signature(gen.describe(spec), sorted(ref.en_r), sorted(ref.en_sp))
        m.sample({'chemistry': gen.describe(spec), 'line': body[0] if body else ''})
